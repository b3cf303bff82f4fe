SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- ConnectCfgs
  Calls <- ConnectCalls
  Rx <- ConnectRx
  OpenResults <- ConnectOpens
  ReadErrs <- ConnectReadErrs
  WriteErrs <- ConnectWriteErrs
  Wins <- ConnectWins
  Gates <- Booleans
  Ticks <- OneTick
  Cancels <- Nothing
  MaxRx = 3
  MaxConns = 1
  MaxCalls = 1
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = FALSE
  Ready = FALSE
  Track = {"time"}
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
INVARIANT Bounded
