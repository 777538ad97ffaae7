------------------------------ MODULE MCVoronoi ------------------------------
EXTENDS Voronoi
==============================================================================
