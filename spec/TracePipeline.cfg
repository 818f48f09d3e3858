SPECIFICATION RecSpec
CONSTANTS
PixelMargin = 150
PlaceMargin = 60
RayMargin = 5
INVARIANT Inv
