---- MODULE NNMCq ----
EXTENDS NNMC
CShapes == {<<1,1>>, <<2,2>>, <<1,2,1>>, <<2,3,2>>}
CActs == BuiltinActs
CWeights == <<3, -5, 7, -2, 4, -9, 1>>
CXs == <<5, -3, 9, -6>>
TShapes == CShapes \cup {<<3,2,2,2>>, <<1,1,1,1>>, <<2,4,3>>, <<3,5>>}
====
