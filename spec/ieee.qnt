// -*- mode: Bluespec; -*-
/// IEEE-754 doubles as the implementation stores them: 64-bit words. The specification receives every observed double as its
/// bits and decodes it itself.
module ieee {
  pure def negative(w: int): bool = w >= 2^63
  pure def magn(w: int): int = w % 2^63
  pure def expo(w: int): int = magn(w) / 2^52
  pure def fin(w: int): bool = expo(w) < 2047
  pure def isInf(w: int): bool = magn(w) == 2047 * 2^52
  pure def isNan(w: int): bool = expo(w) == 2047 and magn(w) % 2^52 != 0
  pure def isZero(w: int): bool = magn(w) == 0
  pure def isPos(w: int): bool = not(negative(w)) and not(isZero(w)) and fin(w)

  /// the value of a finite double times 2^192
  pure def fx(w: int): int = {
    pure val e = expo(w)
    pure val m = if (e == 0) w % 2^52 else 2^52 + w % 2^52
    pure val s = if (e == 0) -882 else e - 883          // 192 - 1074, 192 + e - 1075
    pure val v = if (s >= 0) m * 2^s else m / 2^(-s)
    if (negative(w)) -v else v
  }
  /// order of finite doubles of either sign, on the bits alone (exact whatever the magnitude; -0 = +0)
  pure def key(w: int): int = if (negative(w)) -magn(w) else magn(w)
  pure def le(a: int, b: int): bool = key(a) <= key(b)
  pure def lt(a: int, b: int): bool = key(a) < key(b)
  /// same value (bits equal, or both zero)
  pure def same(a: int, b: int): bool = or { a == b, isZero(a) and isZero(b) }
}
