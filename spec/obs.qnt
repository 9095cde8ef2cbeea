// The recorded executions to validate (see validate.qnt).
module obs {
  import types.* from "./types"
  import judge.* from "./judge"
  type Trace = { genesis: World, pre: List[Cmd], obs: List[Obs] }
  pure val TRACES: List[Trace] = []
}
