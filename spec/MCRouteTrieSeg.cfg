SPECIFICATION Spec
CONSTANTS
  Patterns = {"/a", "/ab", "/a/b", "/abc", "/ab/c", "/a/bc", "/abcd", "/a/b/c", "//a/b/"}
  MwPatterns = {"/a", "/ab", "/a/b"}
  SubPaths = {}
  Mounts = {}
  Requests = {"/a", "/ab", "/a/b", "/abc", "/ab/c", "/a/bc", "/abcd", "/a/b/c", "/abc/d", "/A", "//a//b/"}
  MaxOps = 3
  MaxSub = 0
INVARIANTS SameAcceptance TrieAnswers TrieParams AbstractOK ConcreteOK
