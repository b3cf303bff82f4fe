SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"good", "goodB", "wild", "unknown", "forged", "alone", "host", "parent", "old", "early", "gap", "notca", "stolen", "plain", "hang"}
  TrustStores = {"AB", "B", "C", "none"}
  Tries <- TlsTries
  MaxPeers = 2
  MaxOps = 3
INVARIANT OnlyTwitch
INVARIANT Authenticated
INVARIANT Served
INVARIANT Separate
INVARIANT Sound
INVARIANT Live
