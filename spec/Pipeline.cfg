CONSTANTS
  MaxN = 3
  Limits <- SomeLimits
  Threads = {1, 2}
  MaxFail = 1
  Panics <- SomePanics
  RxHeld = FALSE
  Unbounded = FALSE
SPECIFICATION Spec
INVARIANTS LimitKept AnnouncedAfterDecoding NeverPartial MismatchFirst Bounded Paired Tight
PROPERTIES Implements Returns
