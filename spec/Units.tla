------------------------------- MODULE Units -------------------------------
(* Physical constants (CODATA 2018, SI), reduced Planck units and the fixed  *)
(* cosmological parameters.  Everything else is derived here.                *)
EXTENDS F64, Integers
Pi     == Acos(-1)
cSI    == Real(299792458)
hSI    == Real("6.62607015e-34")
hbarSI == hSI \oslash (2 \otimes Pi)
kSI    == Real("1.380649e-23")
eSI    == Real("1.602176634e-19")
GSI    == Real("6.67430e-11")
G8     == 8 \otimes Pi \otimes GSI
Sq(x)  == Real(x) \otimes x
\* mass, time, length, temperature of the reduced Planck system
mpSI   == Sqrt((hbarSI \otimes cSI) \oslash G8)
lpSI   == Sqrt((G8 \otimes hbarSI) \oslash (cSI \otimes Sq(cSI)))
tpSI   == lpSI \oslash cSI
TpSI   == (mpSI \otimes Sq(cSI)) \oslash kSI
GeVSI  == "1e9" \otimes eSI
mpGeV  == (mpSI \otimes Sq(cSI)) \oslash GeVSI
MpcSI  == (Real("1e6") \otimes "149597870700" \otimes 648000) \oslash Pi
lpMpc  == lpSI \oslash MpcSI
\* radiation constant
aBSI   == (8 \otimes Sq(Sq(Pi)) \otimes Pi \otimes Sq(Sq(kSI)))
            \oslash (15 \otimes hSI \otimes Sq(hSI) \otimes cSI \otimes Sq(cSI))
-----------------------------------------------------------------------------
KSTAR    == Real("0.05")                       \* pivot scale, 1/Mpc
KSTARlp  == KSTAR \otimes lpMpc
TCMB     == Real("2.72548")                    \* K
TCMBlp   == TCMB \oslash TpSI
Neff     == Real("3.044")
zBBN     == Real("1e9")
TnuRatio == Pow(Real(4) \oslash 11, Real(1) \oslash 3)
g0       == 2 \oplus ("1.75" \otimes Neff \otimes TnuRatio \otimes Sq(TnuRatio))
rhoGamma == (aBSI \otimes Sq(Sq(TCMB))) \oslash Sq(cSI)        \* kg/m^3
rhoRad   == rhoGamma \otimes (1 \oplus ("0.875" \otimes Neff \otimes Sq(Sq(TnuRatio))))
\* 1 reduced-Planck energy density is (mp c^2)^4/(hbar c)^3; its fourth root in GeV is mpGeV
GeVofRho(rho) == mpGeV \otimes Sqrt(Sqrt(rho))
RhoOfGeV(g)   == Sq(Sq(Real(g) \oslash mpGeV))
Hubble0(h)    == (Real(h) \otimes "1e5") \oslash MpcSI         \* 1/s
=============================================================================
