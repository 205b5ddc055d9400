NA.update({
    'C38': 'convergence of a stochastic estimator on real-valued inputs: quantifies over floating-point trajectories of an iterative numerical procedure; no sound static argument bounds the error',
    'C39': 'statistical convergence of a trained network: not decidable from the source',
    'C40': 'tolerance-based equality against rounding-based hashing over all real inputs: false as stated for any such implementation near rounding boundaries, and what remains is a numerical question',
})
