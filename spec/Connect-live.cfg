SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- ConnectCfgs
  Calls <- ConnectCalls
  Rx <- FewRx
  OpenResults <- ConnectOpens
  ReadErrs <- ConnectReadErrs
  WriteErrs <- ConnectWriteErrs
  Wins <- Nothing
  Gates <- Booleans
  Ticks <- OneTick
  Cancels <- Nothing
  MaxRx = 4
  MaxConns = 1
  MaxCalls = 1
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = FALSE
  Ready = FALSE
  Track = {}
PROPERTY ConnectEnds
