CONSTANT P = 0
