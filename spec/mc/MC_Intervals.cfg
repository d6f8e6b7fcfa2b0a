CONSTANT Top = 6
INIT Init
NEXT Next
INVARIANTS CanonOK PointOK ClampOK PiecesOK RankOK SelectOK SliceOK ListOK HolesOK ManyOK MoreOK
CHECK_DEADLOCK FALSE
