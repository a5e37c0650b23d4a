SPECIFICATION Spec
CONSTANTS
  Patterns = {"/*", "/a/*", "/a/b", "/a/b/*", "/:x/c", "/ab/c", "/a/:y/d", "/a/bc/d"}
  MwPatterns = {"/a/b/c", "/ab/*"}
  SubPaths = {}
  Mounts = {}
  Requests = {"/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/ab", "/ab/c", "/ab/d", "/z/c", "/a/x/d", "/a/x/e", "/a/bc/e"}
  MaxOps = 3
  MaxSub = 0
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
