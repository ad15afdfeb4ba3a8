enable_halving_search_cv = None
