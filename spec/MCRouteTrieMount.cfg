SPECIFICATION Spec
CONSTANTS
  Patterns = {"/", "/a", "/ab", "/a/:y"}
  MwPatterns = {"/a", "/"}
  SubPaths = {"/", "/b", "/:y", "/*"}
  Mounts = {"/", "/a", "/a/b", "/ac", "/:x", "/*"}
  Requests = {"/", "/a", "/ab", "/a/b", "/a/b/b", "/ac", "/ac/b", "/z", "/z/b", "/a/b/c/d"}
  MaxOps = 2
  MaxSub = 2
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
