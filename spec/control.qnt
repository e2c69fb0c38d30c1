// -*- mode: Bluespec; -*-
/// The control logic of walking and of adaptive stepping, as functions of already evaluated comparisons: used unchanged by the
/// exhaustively checked machine (walk.qnt) and by the checker of recorded executions (trace.qnt).
module control {
  import num.* from "./num"

  /// a walk goes on while the clock is before the schedule's last value
  pure def walking(t: int, last: int): bool = t < last
  /// an interval goes on while the clock is before its report time
  pure def stepping(t: int, target: int): bool = t < target
  /// a fixed step: the configured length, shortened to land on the report time
  pure def fixedLen(dt: int, remaining: int): int = imin(remaining, dt)
  /// the step an adaptive method tries first
  pure def firstTry(proposal: int, remaining: int, dtMax: int): int = imin(imin(proposal, remaining), dtMax)

  /// what an attempt's error estimates say: err < atol, relative estimate present and <= rtol, err <= atol
  type Verdict = { hasRel: bool, relMet: bool, absMet: bool, absBelow: bool }
  pure def onTolerance(v: Verdict): bool = or { v.absBelow, if (v.hasRel) v.relMet else v.absMet }
  pure def accepted(v: Verdict, attempts: int, maxIter: int): bool = or { attempts >= maxIter, onTolerance(v) }

  /// how the step is scaled: by (rtol/rel)^(1/5), by (atol/err)^(1/5), by (atol/err)^(1/4), or by 1/4
  type Scaling = ByRel | ByAbs | ByAbsFourth | Quarter
  pure def scaling(v: Verdict): Scaling =
    if (v.hasRel) (if (v.relMet) ByRel else if (v.absBelow) ByAbs else Quarter)
    else if (v.absMet) ByAbs else ByAbsFourth
}
