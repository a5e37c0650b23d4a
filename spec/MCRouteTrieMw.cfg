SPECIFICATION Spec
CONSTANTS
  Patterns = {"/", "/a", "/a/b", "/ab", "/a/*", "/:x/b"}
  MwPatterns = {"/", "/a", "/a/b", "/ab", "/a/*", "/:x", "/abc/d"}
  SubPaths = {}
  Mounts = {}
  Requests = {"/", "/a", "/ab", "/a/b", "/a/c", "/ab/c", "/z/b", "/abc/d"}
  MaxOps = 3
  MaxSub = 0
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
