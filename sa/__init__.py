"""Static analyses for xabarov/most-queue.  Nothing in this package imports or runs the analysed code."""
