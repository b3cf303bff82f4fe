SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- LimitedCfgs
  Calls <- ReconnectCalls
  Rx <- FewRx
  OpenResults <- ReconnectOpens
  ReadErrs <- ReconnectReadErrs
  WriteErrs <- Nothing
  Wins <- Nothing
  Gates <- Nothing
  Ticks <- OneTick
  Cancels <- Nothing
  MaxRx = 4
  MaxConns = 3
  MaxCalls = 2
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = FALSE
  Ready = FALSE
  Track = {}
PROPERTY ReconnectEnds
PROPERTY ConnectEnds
