"""Runtime monitors for ProperImage (see /verif/DESIGN.md)."""
