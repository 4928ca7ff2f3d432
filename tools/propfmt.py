"""How properties are written down in props/*.py."""
def P(id, title, statement, over, text, why, files, mech, check, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), check=check)


MC = ("Exhaustive exploration of a small instance of the specification, every transition of which is replayed on the real code; randomised larger "
      "executions of the real code are validated step by step by TLC. Sound for what is explored, not a proof for all inputs. ")
