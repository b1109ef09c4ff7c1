SPECIFICATION Spec
INVARIANT SearchRefines ReplaceRefines ReplaceAllRefines MatchInside Laws
CHECK_DEADLOCK FALSE
