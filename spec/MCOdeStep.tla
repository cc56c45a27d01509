---- MODULE MCOdeStep ----
EXTENDS OdeStep
Q_DtInits == {16, 640}
Q_Deltas == {-64, -48, -16, 8, 64, 640}
Q_Advances == {64, -32}
Q_Growths == {<<1,1>>, <<4,1>>}
S_DtInits == {32, 64, 128, 1024}
S_Deltas == {-512, -256, -96, -64, -32, -8, 4, 8, 32, 64, 100, 128, 512, 1024, 4096}
S_Advances == {-128, -64, 32, 64, 96, 256, 1024}
S_Growths == {<<1,4>>, <<1,2>>, <<1,1>>, <<2,1>>, <<5,1>>, <<16,1>>}
\* the real steppers on y'=1: no error, so every attempt is accepted and the step grows by the stepper's limit
R_DtInits == {64, 1024}
R_Deltas == {-6400, -640, -64, 32, 64, 640, 2048, 6400}
R_Advances == {-640, 320, 6400, 20480}
R_Boost == {<<9,2>>}
R_GSL == {<<5,1>>}
====
