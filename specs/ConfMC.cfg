SPECIFICATION MCSpec
CONSTANTS
  MaxLen = 0
  Confs = {1, 2}
  NoFile = NoFile
  Keys = {"a", "a.b"}
  Vals <- MCVals
  Files = {"f"}
PROPERTIES OneAtATime NeverShrinks LoadGivesSaved
