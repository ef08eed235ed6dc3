SPECIFICATION GenSpec
INVARIANTS Emit RefinesMeaning GuardExact ConversionKeeps ClausesKept StatementRead
PROPERTY Immutable
CHECK_DEADLOCK FALSE
