// Placeholder: the check writes the recorded calls here, in a copy of the specification.
module nmfdata {
  pure val RUNS: List[{ K: int, same: bool, P: List[List[List[int]]], R: List[List[List[int]]] }] = []
}
