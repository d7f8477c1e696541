CONSTANTS
  MaxReq = 2
  KeyS <- SpeechKey
  KeyM <- RoomKey
SPECIFICATION Spec
INVARIANTS OnlyTheRequest Faithful OneFilePerName WarmAnswers
CHECK_DEADLOCK FALSE
