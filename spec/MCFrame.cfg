SPECIFICATION Spec
INVARIANTS OnlyTheSum CoversAll AnyTalker OnlyDecoded NoticesOneChange TypeDecides Foreign ZeroPadded Emit
CHECK_DEADLOCK FALSE
