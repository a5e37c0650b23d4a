SPECIFICATION Spec
CONSTANTS
  Patterns = {"/:x", "/:x/b", "/:x/:y", "/a/:y", "/a/:y/*", "/:x/:y/c", "/*"}
  MwPatterns = {"/a/:y"}
  SubPaths = {"/:z", "/:z/c", "/"}
  Mounts = {"/:x", "/a/:y", "/b"}
  Requests = {"/a", "/q", "/a/b", "/q/b", "/a/b/c", "/a/q/c", "/q/r/c", "/a/q/r/s", "/b/q"}
  MaxOps = 2
  MaxSub = 2
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
