"""Static analysis of reparsec: abstract interpretation of its source."""
