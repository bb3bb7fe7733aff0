SPECIFICATION Spec
CONSTANTS
 Ccys = {"KRW", "USD", "EUR", "JPY", "CNY"}
 Codes <- CodesQ
 Parts = {1, 2, 3}
 Ratings <- RatingsB
INVARIANTS Laws Cover
CHECK_DEADLOCK FALSE
