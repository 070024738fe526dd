SPECIFICATION Spec
CONSTANTS MaxDepth = 2
 Variant = "noreset"
INVARIANTS Safe Refines NoLeak OneHome NoSharing
VIEW ModelView
CHECK_DEADLOCK FALSE
