SPECIFICATION Spec
CONSTANTS
 Ccys = {"KRW", "USD", "EUR"}
 Codes <- CodesQ
 Parts = {1, 2, 3}
 Ratings <- RatingsQ
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
