// Elementary functions in fixed point.
module elem {
  import fx.* from "./fx"

  // natural logarithm
  pure val LN2: int = ofFrac(693147180559945309417232121458176568, 10^36)
  pure def rlog(x: int): int = {
    val s = range(0, 140).foldl({ m: x, e: 0 }, (a, _) =>
      if (a.m >= 2 * ONE) { m: a.m / 2, e: a.e + 1 } else if (a.m < ONE) { m: a.m * 2, e: a.e - 1 } else a)
    val z = rdiv(s.m - ONE, s.m + ONE)
    val z2 = rmul(z, z)
    val ser = range(0, 24).foldl({ t: z, sum: 0 }, (a, k) => { t: rmul(a.t, z2), sum: a.sum + a.t / (2 * k + 1) })
    s.e * LN2 + 2 * ser.sum
  }
  pure val LN10: int = ofFrac(2302585092994045684017991454684364208, 10^36)
  // e^x for moderate x: halve the argument, series, square back
  pure def rexp(x: int): int =
    if (x < -60 * ONE) 0 else {
      val y = x / 256
      val ser = range(1, 16).foldl({ t: ONE, sum: ONE }, (a, k) => {
        val t2 = rmul(a.t, y) / k
        { t: t2, sum: a.sum + t2 }
      })
      range(0, 8).foldl(ser.sum, (s, _) => rmul(s, s))
    }
  pure def sigm(x: int): int =
    if (x >= 0) rdiv(ONE, ONE + rexp(-x)) else {
      val e = rexp(x)
      rdiv(e, ONE + e)
    }
  pure def rtanh(x: int): int = 2 * sigm(2 * x) - ONE

  run expTest = all {
    assert(rabs(rexp(ONE) - ofFrac(2718281828459045235360287471352662498, 10^36)) < 2^20),
    assert(rabs(rlog(rexp(3 * ONE)) - 3 * ONE) < 2^24),
    assert(rabs(rlog(10 * ONE) - LN10) < 2^24),
    assert(rabs(sigm(ONE) + sigm(-ONE) - ONE) < 2^10),
    assert(rabs(rtanh(ONE) - ofFrac(761594155955764888119458282604793590, 10^36)) < 2^24),
  }
}
