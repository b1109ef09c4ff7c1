SPECIFICATION Spec
INVARIANT MergeRefines SearchRefines Coarsest CompInter OrderFree
CHECK_DEADLOCK FALSE
