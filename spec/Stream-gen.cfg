SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- StreamCfgs
  Calls <- StreamCalls
  Rx <- StreamRx
  OpenResults <- StreamOpens
  ReadErrs <- StreamReadErrs
  WriteErrs <- Nothing
  Wins <- Nothing
  Gates <- Nothing
  Ticks <- Nothing
  Cancels <- Waits
  MaxRx = 6
  MaxConns = 1
  MaxCalls = 3
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = TRUE
  Ready = FALSE
  Track = {"read"}
VIEW View
ACTION_CONSTRAINT Emit
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
