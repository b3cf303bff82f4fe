SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- ConnectCfgs
  Calls <- ConnectCalls
  Rx <- GenConnectRx
  OpenResults <- ConnectOpens
  ReadErrs <- ConnectReadErrs
  WriteErrs <- ConnectWriteErrs
  Wins <- GenWins
  Gates <- Nothing
  Ticks <- OneTick
  Cancels <- Nothing
  MaxRx = 4
  MaxConns = 1
  MaxCalls = 1
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = TRUE
  Ready = FALSE
  Track = {}
VIEW View
ACTION_CONSTRAINT Emit
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
