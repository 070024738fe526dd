SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS RoundTrip OptionalNeverFails AnyNeverFails VariantHoldsAlternative ExtraIgnored
CHECK_DEADLOCK FALSE
