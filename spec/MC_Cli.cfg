CONSTANTS
  Rich = FALSE
INIT Init
NEXT Next
VIEW MCView
INVARIANT WellNested
INVARIANT OutcomeShape
INVARIANT NoKeys
INVARIANT ScopeRule
INVARIANT WrongRule
INVARIANT RenderRule
INVARIANT LookupRule
INVARIANT TypeRule
INVARIANT ExplainRule
INVARIANT TextRule
INVARIANT CfgRule
CHECK_DEADLOCK FALSE
