SPECIFICATION LSpec
CONSTANTS Alpha = {9, 32, 97, 98} MaxLen = 6 UBytes = {1, 15, 16, 171, 255}
INVARIANTS TrimLaws WordLaws SplitLaws PrefixLaws UuidLaws
CHECK_DEADLOCK FALSE
