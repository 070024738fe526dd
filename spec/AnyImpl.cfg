SPECIFICATION Spec
CONSTANTS MaxDepth = 2
 Variant = "fixed"
INVARIANTS Safe Refines NoLeak OneHome NoSharing
VIEW ModelView
CHECK_DEADLOCK FALSE
