// The program's own constants.
//
// The exhaustive search of small.qnt replaces this file by one with the same names and small
// values (checks/mc.py).
module params {
  pure val PREC = 10000000000000000                 // fixed-point factor of the reward index
  pure val DAY = 86400                              // seconds per day
  pure val U64 = 18446744073709551615               // largest representable values
  pure val U128 = 340282366920938463463374607431768211455
  pure val CAP_M = 50                               // distinct expiry dates a participant can hold
  pure val CAP_P = 365                              // distinct expiry dates a pool can hold
  pure val CAP_H = 1095                             // distributions a pool can record
  // lockup -> weight multiplier, length in days ("None" is no lockup one can choose)
  pure val MULT = Map("None" -> 0, "Flex" -> 1, "ThreeMonths" -> 2, "SixMonths" -> 4, "OneYear" -> 6)
  pure val DAYS = Map("Flex" -> 5, "ThreeMonths" -> 90, "SixMonths" -> 180, "OneYear" -> 365)
  pure val RENT_M = 13251840                        // lamports locked in a mining account
  pure val RENT_V = 2039280                         // lamports locked in a vault
  pure val POOL_LEN = 64480                         // length of a pool account
  // LEGACY re-enables, one by one, defects that this code base used to have:
  // they serve as design mutants that the model checker must refute.
  pure val LEGACY: Set[str] = Set()
}
