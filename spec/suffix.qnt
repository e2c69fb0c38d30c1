// -*- mode: Bluespec; -*-
/// Which format a file name stands for: the part of the last component after its last dot, when something precedes that dot.
module suffix {
  /// a path is a sequence of tokens; "." and "/" are tokens of their own, no other token contains either
  type Path = List[str]

  /// index of the last occurrence of token x, or -1
  pure def lastOf(p: Path, x: str): int = range(0, p.length()).foldl(-1, (acc, k) => if (p[k] == x) k else acc)
  /// last component
  pure def fileName(p: Path): Path = p.slice(lastOf(p, "/") + 1, p.length())
  pure def onlyDots(p: Path): bool = p.foldl(true, (acc, x) => acc and x == ".")
  /// "json", "yaml", or "" when unsupported: a name that starts with its only dot has no suffix, nor has "." or ".."
  pure def format(p: Path): str = {
    pure val n = fileName(p)
    pure val d = lastOf(n, ".")
    if (d <= 0 or d != n.length() - 2 or n == [".", "."]) ""
    else if (n[d + 1] == "json") "json"
    else if (n[d + 1] == "yaml") "yaml"
    else ""
  }
  run formatTest = all {
    assert(format(["a", ".", "json"]) == "json"),
    assert(format(["a", ".", "yaml"]) == "yaml"),
    assert(format(["a", ".", "json", ".", "yaml"]) == "yaml"),
    assert(format(["a", ".", "yaml", ".", "json"]) == "json"),
    assert(format(["a", ".", "yml"]) == ""),
    assert(format([".", "json"]) == ""),
    assert(format([".", ".", "json"]) == "json"),
    assert(format(["json"]) == ""),
    assert(format(["a", ".", "json", "."]) == ""),
    assert(format(["a", ".", "json", "/", "b"]) == ""),
    assert(format(["a", "/", "b", ".", "json"]) == "json"),
    assert(format(["a", ".", "json", "/"]) == ""),
    assert(format([]) == ""),
    assert(format(["a", ".", "json", "b"]) == ""),
  }
}
/// every path of up to MAX tokens, one after the other
module paths {
  import suffix.*
  pure val TOKENS = ["a", ".", "json", "yaml", "yml", "JSON", "YAML", "/", " "]
  const MAX: int
  var path: List[int]
  var verdict: { path: Path, format: str }
  pure def spell(l: List[int]): Path = l.foldl([], (acc, k) => acc.append(TOKENS[k]))
  pure def judged(l: List[int]): { path: Path, format: str } = { path: spell(l), format: format(spell(l)) }
  /// the next path in order of length, then of tokens
  pure def next1(l: List[int]): List[int] = {
    pure val inc = range(0, l.length()).foldl({ carry: true, out: [] }, (acc, k) => {
      pure val x = l[l.length() - 1 - k]
      if (not(acc.carry)) { carry: false, out: [x].concat(acc.out) }
      else if (x + 1 < TOKENS.length()) { carry: false, out: [x + 1].concat(acc.out) }
      else { carry: true, out: [0].concat(acc.out) }
    })
    if (inc.carry) [0].concat(inc.out) else inc.out
  }
  action init = all { path' = [], verdict' = judged([]) }
  action step = {
    val n = next1(path)
    all { n.length() <= MAX, path' = n, verdict' = judged(n) }
  }
}
module paths4 { import paths(MAX = 4).* }
module paths5 { import paths(MAX = 5).* }
