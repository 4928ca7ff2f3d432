"""property id -> (module in checks/, function)"""
CHECKS = {
    "C01": ("reputation", "trs"),
    "C02": ("reputation", "ars"),
    "C03": ("merkle", "roots"),
    "C04": ("merkle", "proofs"),
    "C05": ("storage", "kv"),
    "C06": ("storage", "conc"),
    "C07": ("keys", "derive"),
    "C08": ("keys", "slip"),
    "C09": ("secrets", "sig"),
    "C10": ("secrets", "vault"),
    "C11": ("secrets", "mnemonic"),
    "C12": ("small", "protected"),
    "C13": ("partial", "partial"),
    "C20": ("staking", "stakes"),
    "C21": ("ledger", "utxo"),
    "C22": ("mempool", "pool"),
    "C23": ("requests", "life"),
    "C24": ("rounds", "rounds"),
    "C26": ("rounds", "mining"),
    "C27": ("superblocks", "board"),
    "C28": ("eligibility", "current"),
    "C29": ("eligibility", "engine"),
    "C30": ("upgrades", "upgrades"),
    "C31": ("network", "network"),
    "C32": ("spending", "spend"),
    "C33": ("radon", "tally"),
    "C34": ("radon", "script"),
    "C35": ("wallet", "wallet"),
    "C36": ("bridge", "bridge"),
    "C37": ("session", "session"),
    "C38": ("inventory", "inventory"),
    "C39": ("priority", "priority"),
    "C25": ("blocks", "blocks"),
    "C14": ("small", "flatten"),
}
