SPECIFICATION Spec
CONSTANTS
  Patterns = {"/", "/a", "/ab", "/a/b", "/abc/d", "/:x", "/a/:y", "/a/*", "/*", "/ac/b/c", "/a/:y/c"}
  MwPatterns = {"/", "/a", "/ab", "/a/*", "/a/b"}
  SubPaths = {}
  Mounts = {}
  Requests = {"/", "/a", "/ab", "/a/b", "/ab/c", "/abc/d", "/abc", "/b", "/a/b/c", "/ac/b/d", "/ac/b/c"}
  MaxOps = 4
  MaxSub = 0
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
