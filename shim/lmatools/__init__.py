"""Stand-in for the parts of lmatools that glmtools imports.

lmatools is not installed here. This package re-implements only what is needed for the real
glmtools code to run: time frames, point counting, geostationary coordinates.
"""
