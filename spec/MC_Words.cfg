INIT WordsInit
NEXT WordsNext
INVARIANTS GrammarAgrees EventsAreAWalk LeanIsExact StreamIsExact Conforms
CHECK_DEADLOCK FALSE
