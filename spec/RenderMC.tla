------------------------------ MODULE RenderMC ------------------------------
EXTENDS Render
a0 == AttrZero
bold == <<1, -1, -1>>
bg == <<0, -1, 4>>
U(x, y, a) == [x |-> x, y |-> y, a |-> a, v |-> TRUE]
CellsSmall == {<<0, 0, -1, -1>>, <<97, 0, -1, -1>>, <<98, 1, -1, -1>>}
CellsBg == {<<0, 0, -1, -1>>, <<97, 0, -1, 4>>, <<98, 1, -1, -1>>}
UCsSmall == {U(1, 1, a0), U(2, 2, bold), U(1, 3, a0)}
UCsTiny == {U(2, 1, bold), U(1, 2, a0)}
NoUCs == {}
=============================================================================
