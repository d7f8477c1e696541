------------------------------ MODULE OutputMC ------------------------------
EXTENDS Output
SomeMixtures == {<<<<<<<<1, 0>>, <<2, 1>>, <<0, 0>>>>, <<<<0, 1>>, <<1, 0>>, <<-1, 0>>>>>>,
                   <<<<<<0, 0>>, <<1, 1>>, <<3, 0>>>>, <<<<1, 0>>, <<0, 2>>, <<-1, 1>>>>>>>>}
SomeMoves == {<<<<One, Zero>>, <<One, One>>>>, <<<<One, Imag>>, <<Zero, One>>>>, <<<<One, <<-1, 0>>>>, <<Zero, One>>>>}
=============================================================================
