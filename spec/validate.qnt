// Trace validation: executions recorded from the real program, step by step
// against the specification.  checks/engine.py puts in the
// place of the empty list in obs.qnt
//   TRACES: List[{ genesis: World, pre: List[Pre], obs: List[Obs] }]
// where `pre` are the commands before the first difference (there the recorded
// execution and the specification agree, so the worlds need not be repeated)
// and `obs` the recorded steps from there on.
module validate {
  import types.* from "./types"
  import cmds.* from "./cmds"
  import params.* from "./params"
  import rewards.* from "./rewards"
  import ghost.* from "./ghost"
  import judge.* from "./judge"
  import obs.* from "./obs"

  var t: int          // trace
  var i: int          // position in its `obs`
  var w: World        // as observed
  var g: Ghost
  var past: Set[str]  // invariants already found broken earlier in this trace
  var tags: Set[Tag]  // found at the last step
  var blamed: Set[str]
  var sound: bool     // so far every accepted command was one the specification accepts, too

  pure def start(n: int): { w: World, g: Ghost } =
    TRACES[n].pre.foldl({ w: TRACES[n].genesis, g: gInit }, (a, c) =>
      val o = exec(a.w, c)
      { w: o.w, g: gExec(a.g, a.w, c, o) })

  action load(n: int): bool = {
    val s = start(n)
    all { t' = n, i' = 0, w' = s.w, g' = s.g, past' = Set(), tags' = Set(), blamed' = Set(), sound' = true }
  }
  action init = load(0)

  action consume = all {
    i < TRACES[t].obs.length(),
    val b = TRACES[t].obs[i]
    val x = exec(w, b.c)
    val w2 = if (b.broken) w else b.w
    val g2 = if (x.ok and b.ok and not(b.broken)) gExec(g, w, b.c, { ok: true, why: "", ret: b.ret, w: w2 }) else g
    val s2 = sound and (x.ok or not(b.ok)) and not(b.broken)
    val h = if (b.broken) Set() else histTags(kind(b.c), w2, g2, b.clean, s2)
    val k = stepTags(w, b).union(if (s2) owedTags(w, b) else Set()).union(h.filter(z => not(past.contains(z.what))))
    all { past' = past.union(h.map(z => z.what)), t' = t, i' = i + 1, w' = w2, g' = g2, sound' = s2, tags' = k, blamed' = k.map(z => blame(z)).flatten() }
  }
  action nextTrace = all { i == TRACES[t].obs.length(), t + 1 < TRACES.length(), load(t + 1) }
  action step = any { consume, nextTrace }
}
