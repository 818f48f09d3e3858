SPECIFICATION Spec
INVARIANT InvStart
INVARIANT InvReads
CONSTANT BackStep = 14
CONSTANT Sizes <- QuickSizes
