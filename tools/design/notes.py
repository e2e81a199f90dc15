HOW = {}
MISSED = {}
