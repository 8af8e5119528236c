class Skip(Exception):
    """the case does not satisfy the property's preconditions"""
