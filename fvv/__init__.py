"""fvv: contract verification of the real fvhoe code (see ../DESIGN.md)."""
