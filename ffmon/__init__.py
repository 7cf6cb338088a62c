"""Runtime monitors for finalfusion-python."""
