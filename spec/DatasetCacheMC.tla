--------------------------- MODULE DatasetCacheMC ---------------------------
EXTENDS DatasetCache
SpeechKey == {"tag", "n"}
RoomKey == {"rev", "n"}
NoCount == {"tag"}
=============================================================================
