SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS RoundTrip OptionalNeverFails AnyNeverFails VariantHoldsAlternative ExtraIgnored
CHECK_DEADLOCK FALSE
