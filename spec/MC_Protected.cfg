SPECIFICATION Spec
CONSTANTS Secrets = {"", "S3cR3tM4rKerS3cR3tM4rKer", "S3cR3tM4rKerS3cR3tM4rKerA"}
 Hows = {"new", "from", "slice"}
 MaxOps = 4
VIEW View
INVARIANT NeverShown
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
