DEFAULT = ('Exact real arithmetic, assumed contracts on the dependencies (engine/fakes). Sizes and values are unbounded '
           'unless the evidence file lists the contract under bounded_only.')
NOTE = {'C20': DEFAULT + ' The rule for ordering nothing in the robust newsvendor solver is proved for one and two data points; '
               'larger samples are checked by bounded runs on the real code.'}
