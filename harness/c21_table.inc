// Machine instructions: name, format, size, optional operands, operands; extended mnemonics: name, instruction, operands
// supplied (place=value). Cross-checked with the SystemZ assembler of LLVM (operand counts, ranges, sizes).
R"(
M A RX-a 4 0 R D12U(X,B)
M AD RX-a 4 0 R D12U(X,B)
M ADB RXE 6 0 R D12U(X,B)
M ADBR RRE 4 0 R R
M ADDFRR RRE 4 0 R R
M ADR RR 2 0 R R
M ADTR RRF-a 4 0 R R R
M ADTRA RRF-a 4 0 R R R M
M AE RX-a 4 0 R D12U(X,B)
M AEB RXE 6 0 R D12U(X,B)
M AEBR RRE 4 0 R R
M AER RR 2 0 R R
M AFI RIL-a 6 0 R I32S
M AG RXY-a 6 0 R D20S(X,B)
M AGF RXY-a 6 0 R D20S(X,B)
M AGFI RIL-a 6 0 R I32S
M AGFR RRE 4 0 R R
M AGH RXY-a 6 0 R D20S(X,B)
M AGHI RI-a 4 0 R I16S
M AGHIK RIE-d 6 0 R R I16S
M AGR RRE 4 0 R R
M AGRK RRF-a 4 0 R R R
M AGSI SIY 6 0 D20S(B) I8S
M AH RX-a 4 0 R D12U(X,B)
M AHHHR RRF-a 4 0 R R R
M AHHLR RRF-a 4 0 R R R
M AHI RI-a 4 0 R I16S
M AHIK RIE-d 6 0 R R I16S
M AHY RXY-a 6 0 R D20S(X,B)
M AIH RIL-a 6 0 R I32S
M AL RX-a 4 0 R D12U(X,B)
M ALC RXY-a 6 0 R D20S(X,B)
M ALCG RXY-a 6 0 R D20S(X,B)
M ALCGR RRE 4 0 R R
M ALCR RRE 4 0 R R
M ALFI RIL-a 6 0 R I32S
M ALG RXY-a 6 0 R D20S(X,B)
M ALGF RXY-a 6 0 R D20S(X,B)
M ALGFI RIL-a 6 0 R I32S
M ALGFR RRE 4 0 R R
M ALGHSIK RIE-d 6 0 R R I16S
M ALGR RRE 4 0 R R
M ALGRK RRF-a 4 0 R R R
M ALGSI SIY 6 0 D20S(B) I8S
M ALHHHR RRF-a 4 0 R R R
M ALHHLR RRF-a 4 0 R R R
M ALHSIK RIE-d 6 0 R R I16S
M ALR RR 2 0 R R
M ALRK RRF-a 4 0 R R R
M ALSI SIY 6 0 D20S(B) I8S
M ALSIH RIL-a 6 0 R I32S
M ALSIHN RIL-a 6 0 R I32S
M ALY RXY-a 6 0 R D20S(X,B)
M AP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M AR RR 2 0 R R
M ARK RRF-a 4 0 R R R
M ASI SIY 6 0 D20S(B) I8S
M AU RX-a 4 0 R D12U(X,B)
M AUR RR 2 0 R R
M AW RX-a 4 0 R D12U(X,B)
M AWR RR 2 0 R R
M AXBR RRE 4 0 R R
M AXR RR 2 0 R R
M AXTR RRF-a 4 0 R R R
M AXTRA RRF-a 4 0 R R R M
M AY RXY-a 6 0 R D20S(X,B)
M BAKR RRE 4 0 R R
M BAL RX-a 4 0 R D12U(X,B)
M BALR RR 2 0 R R
M BAS RX-a 4 0 R D12U(X,B)
M BASR RR 2 0 R R
M BASSM RR 2 0 R R
M BC RX-b 4 0 M D12U(X,B)
M BCR RR 2 0 M R
M BCT RX-a 4 0 R D12U(X,B)
M BCTG RXY-a 6 0 R D20S(X,B)
M BCTGR RRE 4 0 R R
M BCTR RR 2 0 R R
M BIC RXY-b 6 0 M D20S(X,B)
M BPP SMI 6 0 M RI16S D12U(B)
M BPRP MII 6 0 M RI12S RI24S
M BRAS RI-b 4 0 R RI16S
M BRASL RIL-b 6 0 R RI32S
M BRC RI-c 4 0 M RI16S
M BRCL RIL-c 6 0 M RI32S
M BRCT RI-b 4 0 R RI16S
M BRCTG RI-b 4 0 R RI16S
M BRCTH RIL-b 6 0 R RI32S
M BRXH RSI 4 0 R R RI16S
M BRXHG RIE-e 6 0 R R RI16S
M BRXLE RSI 4 0 R R RI16S
M BRXLG RIE-e 6 0 R R RI16S
M BSA RRE 4 0 R R
M BSG RRE 4 0 R R
M BSM RR 2 0 R R
M BXH RS-a 4 0 R R D12U(B)
M BXHG RSY-a 6 0 R R D20S(B)
M BXLE RS-a 4 0 R R D12U(B)
M BXLEG RSY-a 6 0 R R D20S(B)
M C RX-a 4 0 R D12U(X,B)
M CD RX-a 4 0 R D12U(X,B)
M CDB RXE 6 0 R D12U(X,B)
M CDBR RRE 4 0 R R
M CDFBR RRE 4 0 R R
M CDFBRA RRF-e 4 0 R M R M
M CDFR RRE 4 0 R R
M CDFTR RRF-e 4 0 R M R M
M CDGBR RRE 4 0 R R
M CDGBRA RRF-e 4 0 R M R M
M CDGR RRE 4 0 R R
M CDGTR RRE 4 0 R R
M CDGTRA RRF-e 4 0 R M R M
M CDLFBR RRF-e 4 0 R M R M
M CDLFTR RRF-e 4 0 R M R M
M CDLGBR RRF-e 4 0 R M R M
M CDLGTR RRF-e 4 0 R M R M
M CDPT RSL-b 6 0 R D12U(L8U,B) M
M CDR RR 2 0 R R
M CDS RS-a 4 0 R R D12U(B)
M CDSG RSY-a 6 0 R R D20S(B)
M CDSTR RRE 4 0 R R
M CDSY RSY-a 6 0 R R D20S(B)
M CDTR RRE 4 0 R R
M CDUTR RRE 4 0 R R
M CDZT RSL-b 6 0 R D12U(L8U,B) M
M CE RX-a 4 0 R D12U(X,B)
M CEB RXE 6 0 R D12U(X,B)
M CEBR RRE 4 0 R R
M CEDTR RRE 4 0 R R
M CEFBR RRE 4 0 R R
M CEFBRA RRF-e 4 0 R M R M
M CEFR RRE 4 0 R R
M CEGBR RRE 4 0 R R
M CEGBRA RRF-e 4 0 R M R M
M CEGR RRE 4 0 R R
M CELFBR RRF-e 4 0 R M R M
M CELGBR RRF-e 4 0 R M R M
M CER RR 2 0 R R
M CEXTR RRE 4 0 R R
M CFC S 4 0 D12U(B)
M CFDBR RRF-e 4 0 R M R
M CFDBRA RRF-e 4 0 R M R M
M CFDR RRF-e 4 0 R M R
M CFDTR RRF-e 4 0 R M R M
M CFEBR RRF-e 4 0 R M R
M CFEBRA RRF-e 4 0 R M R M
M CFER RRF-e 4 0 R M R
M CFI RIL-a 6 0 R I32S
M CFXBR RRF-e 4 0 R M R
M CFXBRA RRF-e 4 0 R M R M
M CFXR RRF-e 4 0 R M R
M CFXTR RRF-e 4 0 R M R M
M CG RXY-a 6 0 R D20S(X,B)
M CGDBR RRF-e 4 0 R M R
M CGDBRA RRF-e 4 0 R M R M
M CGDR RRF-e 4 0 R M R
M CGDTR RRF-e 4 0 R M R
M CGDTRA RRF-e 4 0 R M R M
M CGEBR RRF-e 4 0 R M R
M CGEBRA RRF-e 4 0 R M R M
M CGER RRF-e 4 0 R M R
M CGF RXY-a 6 0 R D20S(X,B)
M CGFI RIL-a 6 0 R I32S
M CGFR RRE 4 0 R R
M CGFRL RIL-b 6 0 R RI32S
M CGH RXY-a 6 0 R D20S(X,B)
M CGHI RI-a 4 0 R I16S
M CGHRL RIL-b 6 0 R RI32S
M CGHSI SIL 6 0 D12U(B) I16S
M CGIB RIS 6 0 R I8S M D12U(B)
M CGIJ RIE-c 6 0 R I8S M RI16S
M CGIT RIE-a 6 0 R I16S M
M CGR RRE 4 0 R R
M CGRB RRS 6 0 R R M D12U(B)
M CGRJ RIE-b 6 0 R R M RI16S
M CGRL RIL-b 6 0 R RI32S
M CGRT RRF-c 4 0 R R M
M CGXBR RRF-e 4 0 R M R
M CGXBRA RRF-e 4 0 R M R M
M CGXR RRF-e 4 0 R M R
M CGXTR RRF-e 4 0 R M R
M CGXTRA RRF-e 4 0 R M R M
M CH RX-a 4 0 R D12U(X,B)
M CHF RXY-a 6 0 R D20S(X,B)
M CHHR RRE 4 0 R R
M CHHSI SIL 6 0 D12U(B) I16S
M CHI RI-a 4 0 R I16S
M CHLR RRE 4 0 R R
M CHRL RIL-b 6 0 R RI32S
M CHSI SIL 6 0 D12U(B) I16S
M CHY RXY-a 6 0 R D20S(X,B)
M CIB RIS 6 0 R I8S M D12U(B)
M CIH RIL-a 6 0 R I32S
M CIJ RIE-c 6 0 R I8S M RI16S
M CIT RIE-a 6 0 R I16S M
M CKSM RRE 4 0 R R
M CL RX-a 4 0 R D12U(X,B)
M CLC SS-a 6 0 D12U(L8U,B) D12U(B)
M CLCL RR 2 0 R R
M CLCLE RS-a 4 0 R R D12U(B)
M CLCLU RSY-a 6 0 R R D20S(B)
M CLFDBR RRF-e 4 0 R M R M
M CLFDTR RRF-e 4 0 R M R M
M CLFEBR RRF-e 4 0 R M R M
M CLFHSI SIL 6 0 D12U(B) I16U
M CLFI RIL-a 6 0 R I32S
M CLFIT RIE-a 6 0 R I16U M
M CLFXBR RRF-e 4 0 R M R M
M CLFXTR RRF-e 4 0 R M R M
M CLG RXY-a 6 0 R D20S(X,B)
M CLGDBR RRF-e 4 0 R M R M
M CLGDTR RRF-e 4 0 R M R M
M CLGEBR RRF-e 4 0 R M R M
M CLGF RXY-a 6 0 R D20S(X,B)
M CLGFI RIL-a 6 0 R I32S
M CLGFR RRE 4 0 R R
M CLGFRL RIL-b 6 0 R RI32S
M CLGHRL RIL-b 6 0 R RI32S
M CLGHSI SIL 6 0 D12U(B) I16U
M CLGIB RIS 6 0 R I8U M D12U(B)
M CLGIJ RIE-c 6 0 R I8U M RI16S
M CLGIT RIE-a 6 0 R I16U M
M CLGR RRE 4 0 R R
M CLGRB RRS 6 0 R R M D12U(B)
M CLGRJ RIE-b 6 0 R R M RI16S
M CLGRL RIL-b 6 0 R RI32S
M CLGRT RRF-c 4 0 R R M
M CLGT RSY-b 6 0 R M D20S(B)
M CLGXBR RRF-e 4 0 R M R M
M CLGXTR RRF-e 4 0 R M R M
M CLHF RXY-a 6 0 R D20S(X,B)
M CLHHR RRE 4 0 R R
M CLHHSI SIL 6 0 D12U(B) I16U
M CLHLR RRE 4 0 R R
M CLHRL RIL-b 6 0 R RI32S
M CLI SI 4 0 D12U(B) I8U
M CLIB RIS 6 0 R I8U M D12U(B)
M CLIH RIL-a 6 0 R I32S
M CLIJ RIE-c 6 0 R I8U M RI16S
M CLIY SIY 6 0 D20S(B) I8U
M CLM RS-b 4 0 R M D12U(B)
M CLMH RSY-b 6 0 R M D20S(B)
M CLMY RSY-b 6 0 R M D20S(B)
M CLR RR 2 0 R R
M CLRB RRS 6 0 R R M D12U(B)
M CLRCH S 4 0 D12U(B)
M CLRIO S 4 0 D12U(B)
M CLRJ RIE-b 6 0 R R M RI16S
M CLRL RIL-b 6 0 R RI32S
M CLRT RRF-c 4 0 R R M
M CLST RRE 4 0 R R
M CLT RSY-b 6 0 R M D20S(B)
M CLY RXY-a 6 0 R D20S(X,B)
M CMPSC RRE 4 0 R R
M CONCS S 4 0 D12U(B)
M CP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M CPDT RSL-b 6 0 R D12U(L8U,B) M
M CPSDR RRF-b 4 0 R R R
M CPXT RSL-b 6 0 R D12U(L8U,B) M
M CPYA RRE 4 0 R R
M CR RR 2 0 R R
M CRB RRS 6 0 R R M D12U(B)
M CRDTE RRF-b 4 1 R R R M
M CRJ RIE-b 6 0 R R M RI16S
M CRL RIL-b 6 0 R RI32S
M CRT RRF-c 4 0 R R M
M CS RS-a 4 0 R R D12U(B)
M CSCH S 4 0 
M CSDTR RRF-d 4 0 R R M
M CSG RSY-a 6 0 R R D20S(B)
M CSP RRE 4 0 R R
M CSPG RRE 4 0 R R
M CSST SSF 6 0 D12U(B) D12U(B) R
M CSXTR RRF-d 4 0 R R M
M CSY RSY-a 6 0 R R D20S(B)
M CU12 RRF-c 4 1 R R M
M CU14 RRF-c 4 1 R R M
M CU21 RRF-c 4 1 R R M
M CU24 RRF-c 4 1 R R M
M CU41 RRE 4 0 R R
M CU42 RRE 4 0 R R
M CUDTR RRE 4 0 R R
M CUSE RRE 4 0 R R
M CUTFU RRF-c 4 1 R R M
M CUUTF RRF-c 4 1 R R M
M CUXTR RRE 4 0 R R
M CVB RX-a 4 0 R D12U(X,B)
M CVBG RXY-a 6 0 R D20S(X,B)
M CVBY RXY-a 6 0 R D20S(X,B)
M CVD RX-a 4 0 R D12U(X,B)
M CVDG RXY-a 6 0 R D20S(X,B)
M CVDY RXY-a 6 0 R D20S(X,B)
M CXBR RRE 4 0 R R
M CXFBR RRE 4 0 R R
M CXFBRA RRF-e 4 0 R M R M
M CXFR RRE 4 0 R R
M CXFTR RRF-e 4 0 R M R M
M CXGBR RRE 4 0 R R
M CXGBRA RRF-e 4 0 R M R M
M CXGR RRE 4 0 R R
)"
R"(M CXGTR RRE 4 0 R R
M CXGTRA RRF-e 4 0 R M R M
M CXLFBR RRF-e 4 0 R M R M
M CXLFTR RRF-e 4 0 R M R M
M CXLGBR RRF-e 4 0 R M R M
M CXLGTR RRF-e 4 0 R M R M
M CXPT RSL-b 6 0 R D12U(L8U,B) M
M CXR RRE 4 0 R R
M CXSTR RRE 4 0 R R
M CXTR RRE 4 0 R R
M CXUTR RRE 4 0 R R
M CXZT RSL-b 6 0 R D12U(L8U,B) M
M CY RXY-a 6 0 R D20S(X,B)
M CZDT RSL-b 6 0 R D12U(L8U,B) M
M CZXT RSL-b 6 0 R D12U(L8U,B) M
M D RX-a 4 0 R D12U(X,B)
M DD RX-a 4 0 R D12U(X,B)
M DDB RXE 6 0 R D12U(X,B)
M DDBR RRE 4 0 R R
M DDR RR 2 0 R R
M DDTR RRF-a 4 0 R R R
M DDTRA RRF-a 4 0 R R R M
M DE RX-a 4 0 R D12U(X,B)
M DEB RXE 6 0 R D12U(X,B)
M DEBR RRE 4 0 R R
M DER RR 2 0 R R
M DFLTCC RRF-a 4 0 R R R
M DIDBR RRF-b 4 0 R R R M
M DIEBR RRF-b 4 0 R R R M
M DISCS S 4 0 D12U(B)
M DL RXY-a 6 0 R D20S(X,B)
M DLG RXY-a 6 0 R D20S(X,B)
M DLGR RRE 4 0 R R
M DLR RRE 4 0 R R
M DP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M DR RR 2 0 R R
M DSG RXY-a 6 0 R D20S(X,B)
M DSGF RXY-a 6 0 R D20S(X,B)
M DSGFR RRE 4 0 R R
M DSGR RRE 4 0 R R
M DXBR RRE 4 0 R R
M DXR RRE 4 0 R R
M DXTR RRF-a 4 0 R R R
M DXTRA RRF-a 4 0 R R R M
M EAR RRE 4 0 R R
M ECAG RSY-a 6 0 R R D20S(B)
M ECCTR RRE 4 0 R R
M ECPGA RRE 4 0 R R
M ECTG SSF 6 0 D12U(B) D12U(B) R
M ED SS-a 6 0 D12U(L8U,B) D12U(B)
M EDMK SS-a 6 0 D12U(L8U,B) D12U(B)
M EEDTR RRE 4 0 R R
M EEXTR RRE 4 0 R R
M EFPC RRE 4 0 R
M EPAIR RRE 4 0 R
M EPAR RRE 4 0 R
M EPCTR RRE 4 0 R R
M EPSW RRE 4 0 R R
M EREG RRE 4 0 R R
M EREGG RRE 4 0 R R
M ESAIR RRE 4 0 R
M ESAR RRE 4 0 R
M ESDTR RRE 4 0 R R
M ESEA RRE 4 0 R
M ESTA RRE 4 0 R R
M ESXTR RRE 4 0 R R
M ETND RRE 4 0 R
M EX RX-a 4 0 R D12U(X,B)
M EXRL RIL-b 6 0 R RI32S
M FIDBR RRF-e 4 0 R M R
M FIDBRA RRF-e 4 0 R M R M
M FIDR RRE 4 0 R R
M FIDTR RRF-e 4 0 R M R M
M FIEBR RRF-e 4 0 R M R
M FIEBRA RRF-e 4 0 R M R M
M FIER RRE 4 0 R R
M FIXBR RRF-e 4 0 R M R
M FIXBRA RRF-e 4 0 R M R M
M FIXR RRE 4 0 R R
M FIXTR RRF-e 4 0 R M R M
M FLOGR RRE 4 0 R R
M HDR RR 2 0 R R
M HDV S 4 0 D12U(B)
M HER RR 2 0 R R
M HIO S 4 0 D12U(B)
M HSCH S 4 0 
M IAC RRE 4 0 R
M IC RX-a 4 0 R D12U(X,B)
M ICM RS-b 4 0 R M D12U(B)
M ICMH RSY-b 6 0 R M D20S(B)
M ICMY RSY-b 6 0 R M D20S(B)
M ICY RXY-a 6 0 R D20S(X,B)
M IDTE RRF-b 4 1 R R R M
M IEDTR RRF-b 4 0 R R R
M IEXTR RRF-b 4 0 R R R
M IIHF RIL-a 6 0 R I32S
M IIHH RI-a 4 0 R I16U
M IIHL RI-a 4 0 R I16U
M IILF RIL-a 6 0 R I32S
M IILH RI-a 4 0 R I16U
M IILL RI-a 4 0 R I16U
M IPK S 4 0 
M IPM RRE 4 0 R
M IPTE RRF-a 4 2 R R R M
M IRBM RRE 4 0 R R
M ISK RR 2 0 R R
M ISKE RRE 4 0 R R
M IVSK RRE 4 0 R R
M KDB RXE 6 0 R D12U(X,B)
M KDBR RRE 4 0 R R
M KDSA RRE 4 0 R R
M KDTR RRE 4 0 R R
M KEB RXE 6 0 R D12U(X,B)
M KEBR RRE 4 0 R R
M KIMD RRE 4 0 R R
M KLMD RRE 4 0 R R
M KM RRE 4 0 R R
M KMA RRF-b 4 0 R R R
M KMAC RRE 4 0 R R
M KMC RRE 4 0 R R
M KMCTR RRF-b 4 0 R R R
M KMF RRE 4 0 R R
M KMO RRE 4 0 R R
M KXBR RRE 4 0 R R
M KXTR RRE 4 0 R R
M L RX-a 4 0 R D12U(X,B)
M LA RX-a 4 0 R D12U(X,B)
M LAA RSY-a 6 0 R R D20S(B)
M LAAG RSY-a 6 0 R R D20S(B)
M LAAL RSY-a 6 0 R R D20S(B)
M LAALG RSY-a 6 0 R R D20S(B)
M LAE RX-a 4 0 R D12U(X,B)
M LAEY RXY-a 6 0 R D20S(X,B)
M LAM RS-a 4 0 R R D12U(B)
M LAMY RSY-a 6 0 R R D20S(B)
M LAN RSY-a 6 0 R R D20S(B)
M LANG RSY-a 6 0 R R D20S(B)
M LAO RSY-a 6 0 R R D20S(B)
M LAOG RSY-a 6 0 R R D20S(B)
M LARL RIL-b 6 0 R RI32S
M LASP SSE 6 0 D12U(B) D12U(B)
M LAT RXY-a 6 0 R D20S(X,B)
M LAX RSY-a 6 0 R R D20S(B)
M LAXG RSY-a 6 0 R R D20S(B)
M LAY RXY-a 6 0 R D20S(X,B)
M LB RXY-a 6 0 R D20S(X,B)
M LBH RXY-a 6 0 R D20S(X,B)
M LBR RRE 4 0 R R
M LCBB RXE 6 0 R D12U(X,B) M
M LCCTL S 4 0 D12U(B)
M LCDBR RRE 4 0 R R
M LCDFR RRE 4 0 R R
M LCDR RR 2 0 R R
M LCEBR RRE 4 0 R R
M LCER RR 2 0 R R
M LCGFR RRE 4 0 R R
M LCGR RRE 4 0 R R
M LCR RR 2 0 R R
M LCTL RS-a 4 0 R R D12U(B)
M LCTLG RSY-a 6 0 R R D20S(B)
M LCXBR RRE 4 0 R R
M LCXR RRE 4 0 R R
M LD RX-a 4 0 R D12U(X,B)
M LDE RXE 6 0 R D12U(X,B)
M LDEB RXE 6 0 R D12U(X,B)
M LDEBR RRE 4 0 R R
M LDER RRE 4 0 R R
M LDETR RRF-d 4 0 R R M
M LDGR RRE 4 0 R R
M LDR RR 2 0 R R
M LDXBR RRE 4 0 R R
M LDXBRA RRF-e 4 0 R M R M
M LDXR RR 2 0 R R
M LDXTR RRF-e 4 0 R M R M
M LDY RXY-a 6 0 R D20S(X,B)
M LE RX-a 4 0 R D12U(X,B)
M LEDBR RRE 4 0 R R
M LEDBRA RRF-e 4 0 R M R M
M LEDR RR 2 0 R R
M LEDTR RRF-e 4 0 R M R M
M LER RR 2 0 R R
M LEXBR RRE 4 0 R R
M LEXBRA RRF-e 4 0 R M R M
M LEXR RRE 4 0 R R
M LEY RXY-a 6 0 R D20S(X,B)
M LFAS S 4 0 D12U(B)
M LFH RXY-a 6 0 R D20S(X,B)
M LFHAT RXY-a 6 0 R D20S(X,B)
M LFPC S 4 0 D12U(B)
M LG RXY-a 6 0 R D20S(X,B)
M LGAT RXY-a 6 0 R D20S(X,B)
M LGB RXY-a 6 0 R D20S(X,B)
M LGBR RRE 4 0 R R
M LGDR RRE 4 0 R R
M LGF RXY-a 6 0 R D20S(X,B)
M LGFI RIL-a 6 0 R I32S
M LGFR RRE 4 0 R R
M LGFRL RIL-b 6 0 R RI32S
M LGG RXY-a 6 0 R D20S(X,B)
M LGH RXY-a 6 0 R D20S(X,B)
M LGHI RI-a 4 0 R I16S
M LGHR RRE 4 0 R R
M LGHRL RIL-b 6 0 R RI32S
M LGR RRE 4 0 R R
M LGRL RIL-b 6 0 R RI32S
M LGSC RXY-a 6 0 R D20S(X,B)
M LH RX-a 4 0 R D12U(X,B)
M LHH RXY-a 6 0 R D20S(X,B)
M LHI RI-a 4 0 R I16S
M LHR RRE 4 0 R R
M LHRL RIL-b 6 0 R RI32S
M LHY RXY-a 6 0 R D20S(X,B)
M LLC RXY-a 6 0 R D20S(X,B)
M LLCH RXY-a 6 0 R D20S(X,B)
M LLCR RRE 4 0 R R
M LLGC RXY-a 6 0 R D20S(X,B)
M LLGCR RRE 4 0 R R
M LLGF RXY-a 6 0 R D20S(X,B)
M LLGFAT RXY-a 6 0 R D20S(X,B)
M LLGFR RRE 4 0 R R
M LLGFRL RIL-b 6 0 R RI32S
M LLGFSG RXY-a 6 0 R D20S(X,B)
M LLGH RXY-a 6 0 R D20S(X,B)
M LLGHR RRE 4 0 R R
M LLGHRL RIL-b 6 0 R RI32S
M LLGT RXY-a 6 0 R D20S(X,B)
M LLGTAT RXY-a 6 0 R D20S(X,B)
M LLGTR RRE 4 0 R R
M LLH RXY-a 6 0 R D20S(X,B)
M LLHH RXY-a 6 0 R D20S(X,B)
M LLHR RRE 4 0 R R
M LLHRL RIL-b 6 0 R RI32S
M LLIHF RIL-a 6 0 R I32S
M LLIHH RI-a 4 0 R I16U
M LLIHL RI-a 4 0 R I16U
M LLILF RIL-a 6 0 R I32S
M LLILH RI-a 4 0 R I16U
M LLILL RI-a 4 0 R I16U
M LLZRGF RXY-a 6 0 R D20S(X,B)
M LM RS-a 4 0 R R D12U(B)
M LMD SS-e 6 0 R R D12U(B) D12U(B)
M LMG RSY-a 6 0 R R D20S(B)
M LMH RSY-a 6 0 R R D20S(B)
M LMY RSY-a 6 0 R R D20S(B)
M LNDBR RRE 4 0 R R
M LNDFR RRE 4 0 R R
M LNDR RR 2 0 R R
M LNEBR RRE 4 0 R R
M LNER RR 2 0 R R
M LNGFR RRE 4 0 R R
M LNGR RRE 4 0 R R
M LNR RR 2 0 R R
M LNXBR RRE 4 0 R R
M LNXR RRE 4 0 R R
M LOC RSY-b 6 0 R D20S(B) M
M LOCFH RSY-b 6 0 R D20S(B) M
M LOCFHR RRF-c 4 0 R R M
M LOCG RSY-b 6 0 R D20S(B) M
M LOCGHI RIE-g 6 0 R I16S M
M LOCGR RRF-c 4 0 R R M
M LOCHHI RIE-g 6 0 R I16S M
M LOCHI RIE-g 6 0 R I16S M
M LOCR RRF-c 4 0 R R M
M LPCTL S 4 0 D12U(B)
M LPD SSF 6 0 R D12U(B) D12U(B)
M LPDBR RRE 4 0 R R
M LPDFR RRE 4 0 R R
M LPDG SSF 6 0 R D12U(B) D12U(B)
M LPDR RR 2 0 R R
M LPEBR RRE 4 0 R R
M LPER RR 2 0 R R
M LPGFR RRE 4 0 R R
M LPGR RRE 4 0 R R
M LPP S 4 0 D12U(B)
M LPQ RXY-a 6 0 R D20S(X,B)
M LPR RR 2 0 R R
M LPSW SI 4 0 D12U(B)
M LPSWE S 4 0 D12U(B)
M LPTEA RRF-b 4 0 R R R M
M LPXBR RRE 4 0 R R
M LPXR RRE 4 0 R R
M LR RR 2 0 R R
M LRA RX-a 4 0 R D12U(X,B)
M LRAG RXY-a 6 0 R D20S(X,B)
M LRAY RXY-a 6 0 R D20S(X,B)
M LRDR RR 2 0 R R
M LRER RR 2 0 R R
M LRL RIL-b 6 0 R RI32S
M LRV RXY-a 6 0 R D20S(X,B)
M LRVG RXY-a 6 0 R D20S(X,B)
M LRVGR RRE 4 0 R R
M LRVH RXY-a 6 0 R D20S(X,B)
M LRVR RRE 4 0 R R
M LSCTL S 4 0 D12U(B)
M LT RXY-a 6 0 R D20S(X,B)
M LTDBR RRE 4 0 R R
M LTDR RR 2 0 R R
M LTDTR RRE 4 0 R R
M LTEBR RRE 4 0 R R
M LTER RR 2 0 R R
)"
R"(M LTG RXY-a 6 0 R D20S(X,B)
M LTGF RXY-a 6 0 R D20S(X,B)
M LTGFR RRE 4 0 R R
M LTGR RRE 4 0 R R
M LTR RR 2 0 R R
M LTXBR RRE 4 0 R R
M LTXR RRE 4 0 R R
M LTXTR RRE 4 0 R R
M LURA RRE 4 0 R R
M LURAG RRE 4 0 R R
M LXD RXE 6 0 R D12U(X,B)
M LXDB RXE 6 0 R D12U(X,B)
M LXDBR RRE 4 0 R R
M LXDR RRE 4 0 R R
M LXDTR RRF-d 4 0 R R M
M LXE RXE 6 0 R D12U(X,B)
M LXEB RXE 6 0 R D12U(X,B)
M LXEBR RRE 4 0 R R
M LXER RRE 4 0 R R
M LXR RRE 4 0 R R
M LY RXY-a 6 0 R D20S(X,B)
M LZDR RRE 4 0 R
M LZER RRE 4 0 R
M LZRF RXY-a 6 0 R D20S(X,B)
M LZRG RXY-a 6 0 R D20S(X,B)
M LZXR RRE 4 0 R
M M RX-a 4 0 R D12U(X,B)
M MAD RXF 6 0 R R D12U(X,B)
M MADB RXF 6 0 R R D12U(X,B)
M MADBR RRD 4 0 R R R
M MADR RRD 4 0 R R R
M MAE RXF 6 0 R R D12U(X,B)
M MAEB RXF 6 0 R R D12U(X,B)
M MAEBR RRD 4 0 R R R
M MAER RRD 4 0 R R R
M MAY RXF 6 0 R R D12U(X,B)
M MAYH RXF 6 0 R R D12U(X,B)
M MAYHR RRD 4 0 R R R
M MAYL RXF 6 0 R R D12U(X,B)
M MAYLR RRD 4 0 R R R
M MAYR RRD 4 0 R R R
M MC SI 4 0 D12U(B) I8U
M MD RX-a 4 0 R D12U(X,B)
M MDB RXE 6 0 R D12U(X,B)
M MDBR RRE 4 0 R R
M MDE RX-a 4 0 R D12U(X,B)
M MDEB RXE 6 0 R D12U(X,B)
M MDEBR RRE 4 0 R R
M MDER RR 2 0 R R
M MDR RR 2 0 R R
M MDTR RRF-a 4 0 R R R
M MDTRA RRF-a 4 0 R R R M
M ME RX-a 4 0 R D12U(X,B)
M MEE RXE 6 0 R D12U(X,B)
M MEEB RXE 6 0 R D12U(X,B)
M MEEBR RRE 4 0 R R
M MEER RRE 4 0 R R
M MER RR 2 0 R R
M MFY RXY-a 6 0 R D20S(X,B)
M MG RXY-a 6 0 R D20S(X,B)
M MGH RXY-a 6 0 R D20S(X,B)
M MGHI RI-a 4 0 R I16S
M MGRK RRF-a 4 0 R R R
M MH RX-a 4 0 R D12U(X,B)
M MHI RI-a 4 0 R I16S
M MHY RXY-a 6 0 R D20S(X,B)
M ML RXY-a 6 0 R D20S(X,B)
M MLG RXY-a 6 0 R D20S(X,B)
M MLGR RRE 4 0 R R
M MLR RRE 4 0 R R
M MP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M MR RR 2 0 R R
M MS RX-a 4 0 R D12U(X,B)
M MSC RXY-a 6 0 R D20S(X,B)
M MSCH S 4 0 D12U(B)
M MSD RXF 6 0 R R D12U(X,B)
M MSDB RXF 6 0 R R D12U(X,B)
M MSDBR RRD 4 0 R R R
M MSDR RRD 4 0 R R R
M MSE RXF 6 0 R R D12U(X,B)
M MSEB RXF 6 0 R R D12U(X,B)
M MSEBR RRD 4 0 R R R
M MSER RRD 4 0 R R R
M MSFI RIL-a 6 0 R I32S
M MSG RXY-a 6 0 R D20S(X,B)
M MSGC RXY-a 6 0 R D20S(X,B)
M MSGF RXY-a 6 0 R D20S(X,B)
M MSGFI RIL-a 6 0 R I32S
M MSGFR RRE 4 0 R R
M MSGR RRE 4 0 R R
M MSGRKC RRF-a 4 0 R R R
M MSR RRE 4 0 R R
M MSRKC RRF-a 4 0 R R R
M MSTA RRE 4 0 R
M MSY RXY-a 6 0 R D20S(X,B)
M MVC SS-a 6 0 D12U(L8U,B) D12U(B)
M MVCDK SSE 6 0 D12U(B) D12U(B)
M MVCIN SS-a 6 0 D12U(L8U,B) D12U(B)
M MVCK SS-d 6 0 D12U(R,B) D12U(B) R
M MVCL RR 2 0 R R
M MVCLE RS-a 4 0 R R D12U(B)
M MVCLU RSY-a 6 0 R R D20S(B)
M MVCOS SSF 6 0 D12U(B) D12U(B) R
M MVCP SS-d 6 0 D12U(R,B) D12U(B) R
M MVCRL SSE 6 0 D12U(B) D12U(B)
M MVCS SS-d 6 0 D12U(R,B) D12U(B) R
M MVCSK SSE 6 0 D12U(B) D12U(B)
M MVGHI SIL 6 0 D12U(B) I16S
M MVHHI SIL 6 0 D12U(B) I16S
M MVHI SIL 6 0 D12U(B) I16S
M MVI SI 4 0 D12U(B) I8U
M MVIY SIY 6 0 D20S(B) I8U
M MVN SS-a 6 0 D12U(L8U,B) D12U(B)
M MVO SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M MVPG RRE 4 0 R R
M MVST RRE 4 0 R R
M MVZ SS-a 6 0 D12U(L8U,B) D12U(B)
M MXBR RRE 4 0 R R
M MXD RX-a 4 0 R D12U(X,B)
M MXDB RXE 6 0 R D12U(X,B)
M MXDBR RRE 4 0 R R
M MXDR RR 2 0 R R
M MXR RR 2 0 R R
M MXTR RRF-a 4 0 R R R
M MXTRA RRF-a 4 0 R R R M
M MY RXF 6 0 R R D12U(X,B)
M MYH RXF 6 0 R R D12U(X,B)
M MYHR RRD 4 0 R R R
M MYL RXF 6 0 R R D12U(X,B)
M MYLR RRD 4 0 R R R
M MYR RRD 4 0 R R R
M N RX-a 4 0 R D12U(X,B)
M NC SS-a 6 0 D12U(L8U,B) D12U(B)
M NCGRK RRF-a 4 0 R R R
M NCRK RRF-a 4 0 R R R
M NG RXY-a 6 0 R D20S(X,B)
M NGR RRE 4 0 R R
M NGRK RRF-a 4 0 R R R
M NI SI 4 0 D12U(B) I8U
M NIAI IE 4 0 I4U I4U
M NIHF RIL-a 6 0 R I32S
M NIHH RI-a 4 0 R I16U
M NIHL RI-a 4 0 R I16U
M NILF RIL-a 6 0 R I32S
M NILH RI-a 4 0 R I16U
M NILL RI-a 4 0 R I16U
M NIY SIY 6 0 D20S(B) I8U
M NNGRK RRF-a 4 0 R R R
M NNRK RRF-a 4 0 R R R
M NOGRK RRF-a 4 0 R R R
M NORK RRF-a 4 0 R R R
M NR RR 2 0 R R
M NRK RRF-a 4 0 R R R
M NTSTG RXY-a 6 0 R D20S(X,B)
M NXGRK RRF-a 4 0 R R R
M NXRK RRF-a 4 0 R R R
M NY RXY-a 6 0 R D20S(X,B)
M O RX-a 4 0 R D12U(X,B)
M OC SS-a 6 0 D12U(L8U,B) D12U(B)
M OCGRK RRF-a 4 0 R R R
M OCRK RRF-a 4 0 R R R
M OG RXY-a 6 0 R D20S(X,B)
M OGR RRE 4 0 R R
M OGRK RRF-a 4 0 R R R
M OI SI 4 0 D12U(B) I8U
M OIHF RIL-a 6 0 R I32S
M OIHH RI-a 4 0 R I16U
M OIHL RI-a 4 0 R I16U
M OILF RIL-a 6 0 R I32S
M OILH RI-a 4 0 R I16U
M OILL RI-a 4 0 R I16U
M OIY SIY 6 0 D20S(B) I8U
M OR RR 2 0 R R
M ORK RRF-a 4 0 R R R
M OY RXY-a 6 0 R D20S(X,B)
M PACK SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M PALB RRE 4 0 
M PC S 4 0 D12U(B)
M PCC RRE 4 0 
M PCKMO RRE 4 0 
M PFD RXY-b 6 0 M D20S(X,B)
M PFDRL RIL-c 6 0 M RI32S
M PFMF RRE 4 0 R R
M PFPO E 2 0 
M PGIN RRE 4 0 R R
M PGOUT RRE 4 0 R R
M PKA SS-f 6 0 D12U(B) D12U(L8U,B)
M PKU SS-f 6 0 D12U(B) D12U(L8U,B)
M PLO SS-e 6 0 R D12U(B) R D12U(B)
M POPCNT RRF-c 4 1 R R M
M PPA RRF-c 4 0 R R M
M PPNO RRE 4 0 R R
M PR E 2 0 
M PRNO RRE 4 0 R R
M PT RRE 4 0 R R
M PTF RRE 4 0 R
M PTFF E 2 0 
M PTI RRE 4 0 R R
M PTLB S 4 0 
M QADTR RRF-b 4 0 R R R M
M QAXTR RRF-b 4 0 R R R M
M QCTRI S 4 0 D12U(B)
M QSI S 4 0 D12U(B)
M RCHP S 4 0 
M RISBG RIE-f 6 1 R R I8U I8U I8
M RISBGN RIE-f 6 1 R R I8U I8U I8
M RISBGNZ RIE-f 6 1 R R I8U I8U I8
M RISBGZ RIE-f 6 1 R R I8U I8U I8
M RISBHG RIE-f 6 1 R R I8U I8U I8
M RISBHGZ RIE-f 6 1 R R I8U I8U I8
M RISBLG RIE-f 6 1 R R I8U I8U I8
M RISBLGZ RIE-f 6 1 R R I8U I8U I8
M RLL RSY-a 6 0 R R D20S(B)
M RLLG RSY-a 6 0 R R D20S(B)
M RNSBG RIE-f 6 1 R R I8U I8U I8
M RNSBGT RIE-f 6 1 R R I8U I8U I8
M ROSBG RIE-f 6 1 R R I8U I8U I8
M ROSBGT RIE-f 6 1 R R I8U I8U I8
M RP S 4 0 D12U(B)
M RRB S 4 0 D12U(B)
M RRBE RRE 4 0 R R
M RRBM RRE 4 0 R R
M RRDTR RRF-b 4 0 R R R M
M RRXTR RRF-b 4 0 R R R M
M RSCH S 4 0 
M RXSBG RIE-f 6 1 R R I8U I8U I8
M RXSBGT RIE-f 6 1 R R I8U I8U I8
M S RX-a 4 0 R D12U(X,B)
M SAC S 4 0 D12U(B)
M SACF S 4 0 D12U(B)
M SAL S 4 0 
M SAM24 E 2 0 
M SAM31 E 2 0 
M SAM64 E 2 0 
M SAR RRE 4 0 R R
M SCCTR RRE 4 0 R R
M SCHM S 4 0 
M SCK S 4 0 D12U(B)
M SCKC S 4 0 D12U(B)
M SCKPF E 2 0 
M SD RX-a 4 0 R D12U(X,B)
M SDB RXE 6 0 R D12U(X,B)
M SDBR RRE 4 0 R R
M SDR RR 2 0 R R
M SDTR RRF-a 4 0 R R R
M SDTRA RRF-a 4 0 R R R M
M SE RX-a 4 0 R D12U(X,B)
M SEB RXE 6 0 R D12U(X,B)
M SEBR RRE 4 0 R R
M SELFHR RRF-a 4 0 R R R M
M SELGR RRF-a 4 0 R R R M
M SELR RRF-a 4 0 R R R M
M SER RR 2 0 R R
M SFASR RRE 4 0 R
M SFPC RRE 4 0 R
M SG RXY-a 6 0 R D20S(X,B)
M SGF RXY-a 6 0 R D20S(X,B)
M SGFR RRE 4 0 R R
M SGH RXY-a 6 0 R D20S(X,B)
M SGR RRE 4 0 R R
M SGRK RRF-a 4 0 R R R
M SH RX-a 4 0 R D12U(X,B)
M SHHHR RRF-a 4 0 R R R
M SHHLR RRF-a 4 0 R R R
M SHY RXY-a 6 0 R D20S(X,B)
M SIE S 4 0 D12U(B)
M SIGP RS-a 4 0 R R D12U(B)
M SIO S 4 0 D12U(B)
M SIOF S 4 0 D12U(B)
M SL RX-a 4 0 R D12U(X,B)
M SLA RS-a 4 0 R D12U(B)
M SLAG RSY-a 6 0 R R D20S(B)
M SLAK RSY-a 6 0 R R D20S(B)
M SLB RXY-a 6 0 R D20S(X,B)
M SLBG RXY-a 6 0 R D20S(X,B)
M SLBGR RRE 4 0 R R
M SLBR RRE 4 0 R R
M SLDA RS-a 4 0 R D12U(B)
M SLDL RS-a 4 0 R D12U(B)
M SLDT RXF 6 0 R R D12U(X,B)
M SLFI RIL-a 6 0 R I32S
M SLG RXY-a 6 0 R D20S(X,B)
M SLGF RXY-a 6 0 R D20S(X,B)
M SLGFI RIL-a 6 0 R I32S
M SLGFR RRE 4 0 R R
M SLGR RRE 4 0 R R
M SLGRK RRF-a 4 0 R R R
M SLHHHR RRF-a 4 0 R R R
M SLHHLR RRF-a 4 0 R R R
M SLL RS-a 4 0 R D12U(B)
M SLLG RSY-a 6 0 R R D20S(B)
M SLLK RSY-a 6 0 R R D20S(B)
M SLR RR 2 0 R R
M SLRK RRF-a 4 0 R R R
M SLXT RXF 6 0 R R D12U(X,B)
M SLY RXY-a 6 0 R D20S(X,B)
M SORTL RRE 4 0 R R
M SP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M SPCTR RRE 4 0 R R
M SPKA S 4 0 D12U(B)
)"
R"(M SPM RR 2 0 R
M SPT S 4 0 D12U(B)
M SPX S 4 0 D12U(B)
M SQD RXE 6 0 R D12U(X,B)
M SQDB RXE 6 0 R D12U(X,B)
M SQDBR RRE 4 0 R R
M SQDR RRE 4 0 R R
M SQE RXE 6 0 R D12U(X,B)
M SQEB RXE 6 0 R D12U(X,B)
M SQEBR RRE 4 0 R R
M SQER RRE 4 0 R R
M SQXBR RRE 4 0 R R
M SQXR RRE 4 0 R R
M SR RR 2 0 R R
M SRA RS-a 4 0 R D12U(B)
M SRAG RSY-a 6 0 R R D20S(B)
M SRAK RSY-a 6 0 R R D20S(B)
M SRDA RS-a 4 0 R D12U(B)
M SRDL RS-a 4 0 R D12U(B)
M SRDT RXF 6 0 R R D12U(X,B)
M SRK RRF-a 4 0 R R R
M SRL RS-a 4 0 R D12U(B)
M SRLG RSY-a 6 0 R R D20S(B)
M SRLK RSY-a 6 0 R R D20S(B)
M SRNM S 4 0 D12U(B)
M SRNMB S 4 0 D12U(B)
M SRNMT S 4 0 D12U(B)
M SRP SS-c 6 0 D12U(L4U,B) D12U(B) I4U
M SRST RRE 4 0 R R
M SRSTU RRE 4 0 R R
M SRXT RXF 6 0 R R D12U(X,B)
M SSAIR RRE 4 0 R
M SSAR RRE 4 0 R
M SSCH S 4 0 D12U(B)
M SSK RR 2 0 R R
M SSKE RRF-c 4 1 R R M
M SSM SI 4 0 D12U(B)
M ST RX-a 4 0 R D12U(X,B)
M STAM RS-a 4 0 R R D12U(B)
M STAMY RSY-a 6 0 R R D20S(B)
M STAP S 4 0 D12U(B)
M STC RX-a 4 0 R D12U(X,B)
M STCH RXY-a 6 0 R D20S(X,B)
M STCK S 4 0 D12U(B)
M STCKC S 4 0 D12U(B)
M STCKE S 4 0 D12U(B)
M STCKF S 4 0 D12U(B)
M STCM RS-b 4 0 R M D12U(B)
M STCMH RSY-b 6 0 R M D20S(B)
M STCMY RSY-b 6 0 R M D20S(B)
M STCPS S 4 0 D12U(B)
M STCRW S 4 0 D12U(B)
M STCTG RSY-a 6 0 R R D20S(B)
M STCTL RS-a 4 0 R R D12U(B)
M STCY RXY-a 6 0 R D20S(X,B)
M STD RX-a 4 0 R D12U(X,B)
M STDY RXY-a 6 0 R D20S(X,B)
M STE RX-a 4 0 R D12U(X,B)
M STEY RXY-a 6 0 R D20S(X,B)
M STFH RXY-a 6 0 R D20S(X,B)
M STFL S 4 0 D12U(B)
M STFLE S 4 0 D12U(B)
M STFPC S 4 0 D12U(B)
M STG RXY-a 6 0 R D20S(X,B)
M STGRL RIL-b 6 0 R RI32S
M STGSC RXY-a 6 0 R D20S(X,B)
M STH RX-a 4 0 R D12U(X,B)
M STHH RXY-a 6 0 R D20S(X,B)
M STHRL RIL-b 6 0 R RI32S
M STHY RXY-a 6 0 R D20S(X,B)
M STIDC S 4 0 D12U(B)
M STIDP S 4 0 D12U(B)
M STM RS-a 4 0 R R D12U(B)
M STMG RSY-a 6 0 R R D20S(B)
M STMH RSY-a 6 0 R R D20S(B)
M STMY RSY-a 6 0 R R D20S(B)
M STNSM SI 4 0 D12U(B) I8U
M STOC RSY-b 6 0 R D20S(B) M
M STOCFH RSY-b 6 0 R D20S(B) M
M STOCG RSY-b 6 0 R D20S(B) M
M STOSM SI 4 0 D12U(B) I8U
M STPQ RXY-a 6 0 R D20S(X,B)
M STPT S 4 0 D12U(B)
M STPX S 4 0 D12U(B)
M STRAG SSE 6 0 D12U(B) D12U(B)
M STRL RIL-b 6 0 R RI32S
M STRV RXY-a 6 0 R D20S(X,B)
M STRVG RXY-a 6 0 R D20S(X,B)
M STRVH RXY-a 6 0 R D20S(X,B)
M STSCH S 4 0 D12U(B)
M STSI S 4 0 D12U(B)
M STURA RRE 4 0 R R
M STURG RRE 4 0 R R
M STY RXY-a 6 0 R D20S(X,B)
M SU RX-a 4 0 R D12U(X,B)
M SUR RR 2 0 R R
M SVC I 2 0 I8U
M SW RX-a 4 0 R D12U(X,B)
M SWR RR 2 0 R R
M SXBR RRE 4 0 R R
M SXR RR 2 0 R R
M SXTR RRF-a 4 0 R R R
M SXTRA RRF-a 4 0 R R R M
M SY RXY-a 6 0 R D20S(X,B)
M TABORT S 4 0 D12U(B)
M TAM E 2 0 
M TAR RRE 4 0 R R
M TB RRE 4 0 R R
M TBDR RRF-e 4 0 R M R
M TBEDR RRF-e 4 0 R M R
M TBEGIN SIL 6 0 D12U(B) I16U
M TBEGINC SIL 6 0 D12U(B) I16U
M TCDB RXE 6 0 R D12U(X,B)
M TCEB RXE 6 0 R D12U(X,B)
M TCH S 4 0 D12U(B)
M TCXB RXE 6 0 R D12U(X,B)
M TDCDT RXE 6 0 R D12U(X,B)
M TDCET RXE 6 0 R D12U(X,B)
M TDCXT RXE 6 0 R D12U(X,B)
M TDGDT RXE 6 0 R D12U(X,B)
M TDGET RXE 6 0 R D12U(X,B)
M TDGXT RXE 6 0 R D12U(X,B)
M TEND S 4 0 
M THDER RRE 4 0 R R
M THDR RRE 4 0 R R
M TIO S 4 0 D12U(B)
M TM SI 4 0 D12U(B) I8U
M TMH RI-a 4 0 R I16U
M TMHH RI-a 4 0 R I16U
M TMHL RI-a 4 0 R I16U
M TML RI-a 4 0 R I16U
M TMLH RI-a 4 0 R I16U
M TMLL RI-a 4 0 R I16U
M TMY SIY 6 0 D20S(B) I8U
M TP RSL-a 6 0 D12U(L4U,B)
M TPEI RRE 4 0 R R
M TPI S 4 0 D12U(B)
M TPROT SSE 6 0 D12U(B) D12U(B)
M TR SS-a 6 0 D12U(L8U,B) D12U(B)
M TRACE RS-a 4 0 R R D12U(B)
M TRACG RSY-a 6 0 R R D20S(B)
M TRAP2 E 2 0 
M TRAP4 S 4 0 D12U(B)
M TRE RRE 4 0 R R
M TROO RRF-c 4 1 R R M
M TROT RRF-c 4 1 R R M
M TRT SS-a 6 0 D12U(L8U,B) D12U(B)
M TRTE RRF-c 4 1 R R M
M TRTO RRF-c 4 1 R R M
M TRTR SS-a 6 0 D12U(L8U,B) D12U(B)
M TRTRE RRF-c 4 1 R R M
M TRTT RRF-c 4 1 R R M
M TS SI 4 0 D12U(B)
M TSCH S 4 0 D12U(B)
M UNPK SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
M UNPKA SS-a 6 0 D12U(L8U,B) D12U(B)
M UNPKU SS-a 6 0 D12U(L8U,B) D12U(B)
M UPT E 2 0 
M VA VRR-c 6 0 V V V M
M VAC VRR-d 6 0 V V V V M
M VACC VRR-c 6 0 V V V M
M VACCC VRR-d 6 0 V V V V M
M VACD RI-a 4 0 R I16U
M VACE RI-a 4 0 R I16U
M VACRS RRE 4 0 R R
M VACSV RRE 4 0 R R
M VAD RI-a 4 0 R I16U
M VADS RI-a 4 0 R I16U
M VAE RI-a 4 0 R I16U
M VAES RI-a 4 0 R I16U
M VAP VRI-f 6 0 V V V I8U M
M VAS RI-a 4 0 R I16U
M VAVG VRR-c 6 0 V V V M
M VAVGL VRR-c 6 0 V V V M
M VBPERM VRR-c 6 0 V V V
M VC RI-a 4 0 R I16U
M VCD RI-a 4 0 R I16U
M VCDS RI-a 4 0 R I16U
M VCE RI-a 4 0 R I16U
M VCEQ VRR-b 6 0 V V V M M
M VCES RI-a 4 0 R I16U
M VCFPL VRR-a 6 0 V V M M M
M VCFPS VRR-a 6 0 V V M M M
M VCH VRR-b 6 0 V V V M M
M VCHL VRR-b 6 0 V V V M M
M VCKSM VRR-c 6 0 V V V
M VCLFP VRR-a 6 0 V V M M M
M VCLGD VRR-a 6 0 V V M M M
M VCLZ VRR-a 6 0 V V M
M VCOVM RRE 4 0 R R
M VCP VRR-h 6 0 V V M
M VCS RI-a 4 0 R I16U
M VCSFP VRR-a 6 0 V V M M M
M VCTZ VRR-a 6 0 V V M
M VCVB VRR-i 6 0 R V M
M VCVBG VRR-i 6 0 R V M
M VCVD VRI-i 6 0 V R I8U M
M VCVDG VRI-i 6 0 V R I8U M
M VCVM RRE 4 0 R R
M VCZVM RRE 4 0 R R
M VDD RI-a 4 0 R I16U
M VDDS RI-a 4 0 R I16U
M VDE RI-a 4 0 R I16U
M VDES RI-a 4 0 R I16U
M VDP VRI-f 6 0 V V V I8U M
M VEC VRR-a 6 0 V V M
M VECL VRR-a 6 0 V V M
M VERIM VRI-d 6 0 V V V I8U M
M VERLL VRS-a 6 0 V V D12U(B) M
M VERLLV VRR-c 6 0 V V V M
M VESL VRS-a 6 0 V V D12U(B) M
M VESLV VRR-c 6 0 V V V M
M VESRA VRS-a 6 0 V V D12U(B) M
M VESRAV VRR-c 6 0 V V V M
M VESRL VRS-a 6 0 V V D12U(B) M
M VESRLV VRR-c 6 0 V V V M
M VFA VRR-c 6 0 V V V M M
M VFAE VRR-b 6 1 V V V M M
M VFCE VRR-c 6 0 V V V M M M
M VFCH VRR-c 6 0 V V V M M M
M VFCHE VRR-c 6 0 V V V M M M
M VFD VRR-c 6 0 V V V M M
M VFEE VRR-b 6 1 V V V M M
M VFENE VRR-b 6 1 V V V M M
M VFI VRR-a 6 0 V V M M M
M VFLL VRR-a 6 0 V V M M
M VFLR VRR-a 6 0 V V M M M
M VFM VRR-c 6 0 V V V M M
M VFMA VRR-e 6 0 V V V V M M
M VFMAX VRR-c 6 0 V V V M M M
M VFMIN VRR-c 6 0 V V V M M M
M VFMS VRR-e 6 0 V V V V M M
M VFNMA VRR-e 6 0 V V V V M M
M VFNMS VRR-e 6 0 V V V V M M
M VFPSO VRR-a 6 0 V V M M M
M VFS VRR-c 6 0 V V V M M
M VFSQ VRR-a 6 0 V V M M
M VFTCI VRI-e 6 0 V V I12 M M
M VGBM VRI-a 6 0 V I16U
M VGEF VRV 6 0 V D12U(V,B) M
M VGEG VRV 6 0 V D12U(V,B) M
M VGFM VRR-c 6 0 V V V M
M VGFMA VRR-d 6 0 V V V V M
M VGM VRI-b 6 0 V I8U I8U M
M VISTR VRR-a 6 1 V V M M
M VL VRX 6 1 V D12U(X,B) M
M VLBB VRX 6 0 V D12U(X,B) M
M VLBIX RRE 4 0 R R
M VLBR VRX 6 0 V D12U(X,B) M
M VLBRREP VRX 6 0 V D12U(X,B) M
M VLC VRR-a 6 0 V V M
M VLCVM RRE 4 0 R R
M VLD RI-a 4 0 R I16U
M VLEB VRX 6 0 V D12U(X,B) M
M VLEBRG VRX 6 0 V D12U(X,B) M
M VLEBRH VRX 6 0 V D12U(X,B) M
M VLEF VRX 6 0 V D12U(X,B) M
M VLEG VRX 6 0 V D12U(X,B) M
M VLEH VRX 6 0 V D12U(X,B) M
M VLEIB VRI-a 6 0 V I16S M
M VLEIF VRI-a 6 0 V I16S M
M VLEIG VRI-a 6 0 V I16S M
M VLEIH VRI-a 6 0 V I16S M
M VLELD RRE 4 0 R R
M VLELE RRE 4 0 R R
M VLER VRX 6 0 V D12U(X,B) M
M VLGV VRS-c 6 0 R V D12U(B) M
M VLH RI-a 4 0 R I16U
M VLI RRE 4 0 R R
M VLID RRE 4 0 R R
M VLINT RI-a 4 0 R I16U
M VLIP VRI-h 6 0 V I16U I4U
M VLL VRS-b 6 0 V R D12U(B)
M VLLEBRZ VRX 6 0 V D12U(X,B) M
M VLLEZ VRX 6 0 V D12U(X,B) M
M VLM VRS-a 6 1 V V D12U(B) M
M VLMD RI-a 4 0 R I16U
M VLP VRR-a 6 0 V V M
M VLR VRR-a 6 0 V V
M VLREP VRX 6 0 V D12U(X,B) M
M VLRL VSI 6 0 V D12U(B) I8U
M VLRLR VRS-d 6 0 V R D12U(B)
M VLVCA RRE 4 0 R R
M VLVCU RRE 4 0 R R
M VLVG VRS-b 6 0 V R D12U(B) M
M VLVGP VRR-f 6 0 V R R
M VLVM RRE 4 0 R R
M VLY RI-a 4 0 R I16U
M VLYD RI-a 4 0 R I16U
M VM RI-a 4 0 R I16U
M VMAD RI-a 4 0 R I16U
M VMADS RI-a 4 0 R I16U
M VMAE VRR-d 6 0 V V V V M
M VMAES RI-a 4 0 R I16U
M VMAH VRR-d 6 0 V V V V M
M VMAL VRR-d 6 0 V V V V M
M VMALE VRR-d 6 0 V V V V M
M VMALH VRR-d 6 0 V V V V M
M VMALO VRR-d 6 0 V V V V M
M VMAO VRR-d 6 0 V V V V M
)"
R"(M VMCD RI-a 4 0 R I16U
M VMCE RI-a 4 0 R I16U
M VMD RI-a 4 0 R I16U
M VMDS RI-a 4 0 R I16U
M VME VRR-c 6 0 V V V M
M VMES RI-a 4 0 R I16U
M VMH VRR-c 6 0 V V V M
M VML VRR-c 6 0 V V V M
M VMLE VRR-c 6 0 V V V M
M VMLH VRR-c 6 0 V V V M
M VMLO VRR-c 6 0 V V V M
M VMN VRR-c 6 0 V V V M
M VMNL VRR-c 6 0 V V V M
M VMNSD RRE 4 0 R R
M VMNSE RRE 4 0 R R
M VMO VRR-c 6 0 V V V M
M VMP VRI-f 6 0 V V V I8U M
M VMRH VRR-c 6 0 V V V M
M VMRL VRR-c 6 0 V V V M
M VMRRS RRE 4 0 R R
M VMRSV RRE 4 0 R R
M VMS RI-a 4 0 R I16U
M VMSD RI-a 4 0 R I16U
M VMSDS RI-a 4 0 R I16U
M VMSE RI-a 4 0 R I16U
M VMSES RI-a 4 0 R I16U
M VMSL VRR-d 6 0 V V V V M M
M VMSP VRI-f 6 0 V V V I8U M
M VMX VRR-c 6 0 V V V M
M VMXAD RRE 4 0 R R
M VMXAE RRE 4 0 R R
M VMXL VRR-c 6 0 V V V M
M VMXSE RRE 4 0 R R
M VN VRR-c 6 0 V V V
M VNC VRR-c 6 0 V V V
M VNN VRR-c 6 0 V V V
M VNO VRR-c 6 0 V V V
M VNS RI-a 4 0 R I16U
M VNVM RRE 4 0 R R
M VNX VRR-c 6 0 V V V
M VO VRR-c 6 0 V V V
M VOC VRR-c 6 0 V V V
M VOS RI-a 4 0 R I16U
M VOVM RRE 4 0 R R
M VPDI VRR-c 6 0 V V V M
M VPERM VRR-e 6 0 V V V V
M VPK VRR-c 6 0 V V V M
M VPKLS VRR-b 6 0 V V V M M
M VPKS VRR-b 6 0 V V V M M
M VPKZ VSI 6 0 V D12U(B) I8U
M VPOPCT VRR-a 6 0 V V M
M VPSOP VRI-g 6 0 V V I8U I8U M
M VRCL RRE 4 0 R R
M VREP VRI-c 6 0 V V I16U M
M VREPI VRI-a 6 0 V I16S M
M VRP VRI-f 6 0 V V V I8U M
M VRRS RRE 4 0 R R
M VRSV RRE 4 0 R R
M VRSVC RRE 4 0 R R
M VS VRR-c 6 0 V V V M
M VSBCBI VRR-d 6 0 V V V V M
M VSBI VRR-d 6 0 V V V V M
M VSCBI VRR-c 6 0 V V V M
M VSCEF VRV 6 0 V D12U(V,B) M
M VSCEG VRV 6 0 V D12U(V,B) M
M VSD RI-a 4 0 R I16U
M VSDP VRI-f 6 0 V V V I8U M
M VSDS RI-a 4 0 R I16U
M VSE RI-a 4 0 R I16U
M VSEG VRR-a 6 0 V V M
M VSEL VRR-e 6 0 V V V V
M VSES RI-a 4 0 R I16U
M VSL VRR-c 6 0 V V V
M VSLB VRR-c 6 0 V V V
M VSLD VRI-d 6 0 V V V I8U
M VSLDB VRI-d 6 0 V V V I8U
M VSLL RRE 4 0 R R
M VSP VRI-f 6 0 V V V I8U M
M VSPSD RRE 4 0 R R
M VSRA VRR-c 6 0 V V V
M VSRAB VRR-c 6 0 V V V
M VSRD VRI-d 6 0 V V V I8U
M VSRL VRR-c 6 0 V V V
M VSRLB VRR-c 6 0 V V V
M VSRP VRI-g 6 0 V V I8U I8S M
M VSRRS RRE 4 0 R R
M VSRSV RRE 4 0 R R
M VSS RI-a 4 0 R I16U
M VST VRX 6 1 V D12U(X,B) M
M VSTBR VRX 6 0 V D12U(X,B) M
M VSTD RI-a 4 0 R I16U
M VSTEB VRX 6 0 V D12U(X,B) M
M VSTEBRF VRX 6 0 V D12U(X,B) M
M VSTEBRG VRX 6 0 V D12U(X,B) M
M VSTEBRH VRX 6 0 V D12U(X,B) M
M VSTEF VRX 6 0 V D12U(X,B) M
M VSTEG VRX 6 0 V D12U(X,B) M
M VSTEH VRX 6 0 V D12U(X,B) M
M VSTER VRX 6 0 V D12U(X,B) M
M VSTH RI-a 4 0 R I16U
M VSTI RRE 4 0 R R
M VSTID RRE 4 0 R R
M VSTK RI-a 4 0 R I16U
M VSTKD RI-a 4 0 R I16U
M VSTL VRS-b 6 0 V R D12U(B)
M VSTM VRS-a 6 1 V V D12U(B) M
M VSTMD RI-a 4 0 R I16U
M VSTRC VRR-d 6 1 V V V V M M
M VSTRL VSI 6 0 V D12U(B) I8U
M VSTRLR VRS-d 6 0 V R D12U(B)
M VSTRS VRR-d 6 1 V V V V M M
M VSTVM RRE 4 0 R R
M VSTVP RRE 4 0 R R
M VSUM VRR-c 6 0 V V V M
M VSUMG VRR-c 6 0 V V V M
M VSUMQ VRR-c 6 0 V V V M
M VSVMM RRE 4 0 R R
M VTM VRR-a 6 0 V V
M VTP VRR-g 6 0 V
M VTVM RRE 4 0 R R
M VUPH VRR-a 6 0 V V M
M VUPKZ VSI 6 0 V D12U(B) I8U
M VUPL VRR-a 6 0 V V M
M VUPLH VRR-a 6 0 V V M
M VUPLL VRR-a 6 0 V V M
M VX VRR-c 6 0 V V V
M VXELD RRE 4 0 R R
M VXELE RRE 4 0 R R
M VXS RI-a 4 0 R I16U
M VXVC RRE 4 0 R R
M VXVM RRE 4 0 R R
M VXVMM RRE 4 0 R R
M VZPSD RRE 4 0 R R
M WFC VRR-a 6 0 V V M M
M WFK VRR-a 6 0 V V M M
M X RX-a 4 0 R D12U(X,B)
M XC SS-a 6 0 D12U(L8U,B) D12U(B)
M XG RXY-a 6 0 R D20S(X,B)
M XGR RRE 4 0 R R
M XGRK RRF-a 4 0 R R R
M XI SI 4 0 D12U(B) I8U
M XIHF RIL-a 6 0 R I32S
M XILF RIL-a 6 0 R I32S
M XIY SIY 6 0 D20S(B) I8U
M XR RR 2 0 R R
M XRK RRF-a 4 0 R R R
M XSCH S 4 0 
M XY RXY-a 6 0 R D20S(X,B)
M ZAP SS-b 6 0 D12U(L4U,B) D12U(L4U,B)
)"
R"(X B BC 0=15
X BE BC 0=8
X BER BCR 0=8
X BH BC 0=2
X BHR BCR 0=2
X BI BIC 0=15
X BIE BIC 0=8
X BIH BIC 0=2
X BIL BIC 0=4
X BIM BIC 0=4
X BINE BIC 0=7
X BINH BIC 0=13
X BINL BIC 0=11
X BINM BIC 0=11
X BINO BIC 0=14
X BINP BIC 0=13
X BINZ BIC 0=7
X BIO BIC 0=1
X BIP BIC 0=2
X BIZ BIC 0=8
X BL BC 0=4
X BLR BCR 0=4
X BM BC 0=4
X BMR BCR 0=4
X BNE BC 0=7
X BNER BCR 0=7
X BNH BC 0=13
X BNHR BCR 0=13
X BNL BC 0=11
X BNLR BCR 0=11
X BNM BC 0=11
X BNMR BCR 0=11
X BNO BC 0=14
X BNOR BCR 0=14
X BNP BC 0=13
X BNPR BCR 0=13
X BNZ BC 0=7
X BNZR BCR 0=7
X BO BC 0=1
X BOR BCR 0=1
X BP BC 0=2
X BPR BCR 0=2
X BR BCR 0=15
X BRE BRC 0=8
X BREL BRCL 0=8
X BRH BRC 0=2
X BRHL BRCL 0=2
X BRL BRC 0=4
X BRLL BRCL 0=4
X BRM BRC 0=4
X BRML BRCL 0=4
X BRNE BRC 0=7
X BRNEL BRCL 0=7
X BRNH BRC 0=13
X BRNHL BRCL 0=13
X BRNL BRC 0=11
X BRNLL BRCL 0=11
X BRNM BRC 0=11
X BRNML BRCL 0=11
X BRNO BRC 0=14
X BRNOL BRCL 0=14
X BRNP BRC 0=13
X BRNPL BRCL 0=13
X BRNZ BRC 0=7
X BRNZL BRCL 0=7
X BRO BRC 0=1
X BROL BRCL 0=1
X BRP BRC 0=2
X BRPL BRCL 0=2
X BRU BRC 0=15
X BRUL BRCL 0=15
X BRZ BRC 0=8
X BRZL BRCL 0=8
X BZ BC 0=8
X BZR BCR 0=8
X CGIBE CGIB 2=8
X CGIBH CGIB 2=2
X CGIBL CGIB 2=4
X CGIBNE CGIB 2=6
X CGIBNH CGIB 2=12
X CGIBNL CGIB 2=10
X CGIJE CGIJ 2=8
X CGIJH CGIJ 2=2
X CGIJL CGIJ 2=4
X CGIJNE CGIJ 2=6
X CGIJNH CGIJ 2=12
X CGIJNL CGIJ 2=10
X CGITE CGIT 2=8
X CGITH CGIT 2=2
X CGITL CGIT 2=4
X CGITNE CGIT 2=6
X CGITNH CGIT 2=12
X CGITNL CGIT 2=10
X CGRBE CGRB 2=8
X CGRBH CGRB 2=2
X CGRBL CGRB 2=4
X CGRBNE CGRB 2=6
X CGRBNH CGRB 2=12
X CGRBNL CGRB 2=10
X CGRJE CGRJ 2=8
X CGRJH CGRJ 2=2
X CGRJL CGRJ 2=4
X CGRJNE CGRJ 2=6
X CGRJNH CGRJ 2=12
X CGRJNL CGRJ 2=10
X CGRTE CGRT 2=8
X CGRTH CGRT 2=2
X CGRTL CGRT 2=4
X CGRTNE CGRT 2=6
X CGRTNH CGRT 2=12
X CGRTNL CGRT 2=10
X CIBE CIB 2=8
X CIBH CIB 2=2
X CIBL CIB 2=4
X CIBNE CIB 2=6
X CIBNH CIB 2=12
X CIBNL CIB 2=10
X CIJE CIJ 2=8
X CIJH CIJ 2=2
X CIJL CIJ 2=4
X CIJNE CIJ 2=6
X CIJNH CIJ 2=12
X CIJNL CIJ 2=10
X CITE CIT 2=8
X CITH CIT 2=2
X CITL CIT 2=4
X CITNE CIT 2=6
X CITNH CIT 2=12
X CITNL CIT 2=10
X CLFITE CLFIT 2=8
X CLFITH CLFIT 2=2
X CLFITL CLFIT 2=4
X CLFITNE CLFIT 2=6
X CLFITNH CLFIT 2=12
X CLFITNL CLFIT 2=10
X CLGIBE CLGIB 2=8
X CLGIBH CLGIB 2=2
X CLGIBL CLGIB 2=4
X CLGIBNE CLGIB 2=6
X CLGIBNH CLGIB 2=12
X CLGIBNL CLGIB 2=10
X CLGIJE CLGIJ 2=8
X CLGIJH CLGIJ 2=2
X CLGIJL CLGIJ 2=4
X CLGIJNE CLGIJ 2=6
X CLGIJNH CLGIJ 2=12
X CLGIJNL CLGIJ 2=10
X CLGITE CLGIT 2=8
X CLGITH CLGIT 2=2
X CLGITL CLGIT 2=4
X CLGITNE CLGIT 2=6
)"
R"(X CLGITNH CLGIT 2=12
X CLGITNL CLGIT 2=10
X CLGRBE CLGRB 2=8
X CLGRBH CLGRB 2=2
X CLGRBL CLGRB 2=4
X CLGRBNE CLGRB 2=6
X CLGRBNH CLGRB 2=12
X CLGRBNL CLGRB 2=10
X CLGRJE CLGRJ 2=8
X CLGRJH CLGRJ 2=2
X CLGRJL CLGRJ 2=4
X CLGRJNE CLGRJ 2=6
X CLGRJNH CLGRJ 2=12
X CLGRJNL CLGRJ 2=10
X CLGRTE CLGRT 2=8
X CLGRTH CLGRT 2=2
X CLGRTL CLGRT 2=4
X CLGRTNE CLGRT 2=6
X CLGRTNH CLGRT 2=12
X CLGRTNL CLGRT 2=10
X CLGTE CLGT 1=8
X CLGTH CLGT 1=2
X CLGTL CLGT 1=4
X CLGTNE CLGT 1=6
X CLGTNH CLGT 1=12
X CLGTNL CLGT 1=10
X CLIBE CLIB 2=8
X CLIBH CLIB 2=2
X CLIBL CLIB 2=4
X CLIBNE CLIB 2=6
X CLIBNH CLIB 2=12
X CLIBNL CLIB 2=10
X CLIJE CLIJ 2=8
X CLIJH CLIJ 2=2
X CLIJL CLIJ 2=4
X CLIJNE CLIJ 2=6
X CLIJNH CLIJ 2=12
X CLIJNL CLIJ 2=10
X CLRBE CLRB 2=8
X CLRBH CLRB 2=2
X CLRBL CLRB 2=4
X CLRBNE CLRB 2=6
X CLRBNH CLRB 2=12
X CLRBNL CLRB 2=10
X CLRJE CLRJ 2=8
X CLRJH CLRJ 2=2
X CLRJL CLRJ 2=4
X CLRJNE CLRJ 2=6
X CLRJNH CLRJ 2=12
X CLRJNL CLRJ 2=10
X CLRTE CLRT 2=8
X CLRTH CLRT 2=2
X CLRTL CLRT 2=4
X CLRTNE CLRT 2=6
X CLRTNH CLRT 2=12
X CLRTNL CLRT 2=10
X CLTE CLT 1=8
X CLTH CLT 1=2
X CLTL CLT 1=4
X CLTNE CLT 1=6
X CLTNH CLT 1=12
X CLTNL CLT 1=10
X CRBE CRB 2=8
X CRBH CRB 2=2
X CRBL CRB 2=4
X CRBNE CRB 2=6
X CRBNH CRB 2=12
X CRBNL CRB 2=10
X CRJE CRJ 2=8
X CRJH CRJ 2=2
X CRJL CRJ 2=4
X CRJNE CRJ 2=6
X CRJNH CRJ 2=12
X CRJNL CRJ 2=10
X CRTE CRT 2=8
X CRTH CRT 2=2
X CRTL CRT 2=4
X CRTNE CRT 2=6
X CRTNH CRT 2=12
X CRTNL CRT 2=10
X J BRC 0=15
X JAS BRAS 
X JASL BRASL 
X JC BRC 
X JCT BRCT 
X JCTG BRCTG 
X JE BRC 0=8
X JH BRC 0=2
X JL BRC 0=4
X JLE BRCL 0=8
X JLH BRCL 0=2
X JLL BRCL 0=4
X JLM BRCL 0=4
X JLNE BRCL 0=7
X JLNH BRCL 0=13
X JLNL BRCL 0=11
X JLNM BRCL 0=11
X JLNO BRCL 0=14
X JLNOP BRCL 0=0
X JLNP BRCL 0=13
X JLNZ BRCL 0=7
X JLO BRCL 0=1
X JLP BRCL 0=2
X JLU BRCL 0=15
X JLZ BRCL 0=8
X JM BRC 0=4
X JNE BRC 0=7
X JNH BRC 0=13
X JNL BRC 0=11
X JNM BRC 0=11
X JNO BRC 0=14
X JNOP BRC 0=0
X JNP BRC 0=13
X JNZ BRC 0=7
X JO BRC 0=1
X JP BRC 0=2
X JXH BRXH 
X JXHG BRXHG 
X JXLE BRXLE 
X JXLEG BRXLG 
X JZ BRC 0=8
X LDRV VLLEBRZ 2=3
X LERV VLLEBRZ 2=6
X LHHR RISBHGZ 2=0 3=31
X LHLR RISBHGZ 2=0 3=31 4=32
X LLCHHR RISBHGZ 2=24 3=31
X LLCHLR RISBHGZ 2=24 3=31 4=32
X LLCLHR RISBLGZ 2=24 3=31 4=32
X LLHFR RISBLGZ 2=0 3=31 4=32
X LLHHHR RISBHGZ 2=16 3=31
X LLHHLR RISBHGZ 2=16 3=31 4=32
X LLHLHR RISBLGZ 2=16 3=31 4=32
X LOCE LOC 2=8
X LOCFHE LOCFH 2=8
X LOCFHH LOCFH 2=2
X LOCFHL LOCFH 2=4
X LOCFHNE LOCFH 2=7
X LOCFHNH LOCFH 2=13
X LOCFHNL LOCFH 2=11
X LOCFHNO LOCFH 2=14
X LOCFHO LOCFH 2=1
X LOCFHRE LOCFHR 2=8
X LOCFHRH LOCFHR 2=2
X LOCFHRL LOCFHR 2=4
X LOCFHRNE LOCFHR 2=7
X LOCFHRNH LOCFHR 2=13
X LOCFHRNL LOCFHR 2=11
X LOCFHRNO LOCFHR 2=14
X LOCFHRO LOCFHR 2=1
X LOCGE LOCG 2=8
X LOCGH LOCG 2=2
X LOCGHIE LOCGHI 2=8
X LOCGHIH LOCGHI 2=2
X LOCGHIL LOCGHI 2=4
X LOCGHINE LOCGHI 2=7
X LOCGHINH LOCGHI 2=13
X LOCGHINL LOCGHI 2=11
X LOCGHINO LOCGHI 2=14
X LOCGHIO LOCGHI 2=1
X LOCGL LOCG 2=4
X LOCGNE LOCG 2=6
X LOCGNH LOCG 2=12
X LOCGNL LOCG 2=10
X LOCGNO LOCG 2=14
X LOCGO LOCG 2=1
X LOCGRE LOCGR 2=8
X LOCGRH LOCGR 2=2
X LOCGRL LOCGR 2=4
X LOCGRNE LOCGR 2=6
X LOCGRNH LOCGR 2=12
X LOCGRNL LOCGR 2=10
X LOCGRNO LOCGR 2=14
X LOCGRO LOCGR 2=1
X LOCH LOC 2=2
X LOCHHIE LOCHHI 2=8
X LOCHHIH LOCHHI 2=2
X LOCHHIL LOCHHI 2=4
X LOCHHINE LOCHHI 2=7
X LOCHHINH LOCHHI 2=13
X LOCHHINL LOCHHI 2=11
X LOCHHINO LOCHHI 2=14
X LOCHHIO LOCHHI 2=1
X LOCHIE LOCHI 2=8
X LOCHIH LOCHI 2=2
X LOCHIL LOCHI 2=4
X LOCHINE LOCHI 2=7
X LOCHINH LOCHI 2=13
X LOCHINL LOCHI 2=11
X LOCHINO LOCHI 2=14
X LOCHIO LOCHI 2=1
X LOCL LOC 2=4
X LOCNE LOC 2=6
X LOCNH LOC 2=12
X LOCNL LOC 2=10
X LOCNO LOC 2=14
X LOCO LOC 2=1
X LOCRE LOCR 2=8
X LOCRH LOCR 2=2
X LOCRL LOCR 2=4
X LOCRNE LOCR 2=6
X LOCRNH LOCR 2=12
X LOCRNL LOCR 2=10
X LOCRNO LOCR 2=14
X LOCRO LOCR 2=1
X NHHR RNSBG 2=0 3=31
X NHLR RNSBG 2=0 3=31 4=32
X NLHR RNSBG 2=32 3=63 4=32
X NOP BC 0=0
X NOPR BCR 0=0
X NOTGR NOGRK 2=0
X NOTR NORK 2=0
X OHHR ROSBG 2=0 3=31
X OHLR ROSBG 2=0 3=31 4=32
X OLHR ROSBG 2=32 3=63 4=32
X SELFHRE SELFHR 3=8
X SELFHRH SELFHR 3=2
X SELFHRL SELFHR 3=4
X SELFHRNE SELFHR 3=7
X SELFHRNH SELFHR 3=13
X SELFHRNL SELFHR 3=11
X SELFHRNO SELFHR 3=14
X SELFHRO SELFHR 3=1
X SELGRE SELGR 3=8
X SELGRH SELGR 3=2
X SELGRL SELGR 3=4
X SELGRNE SELGR 3=7
X SELGRNH SELGR 3=13
X SELGRNL SELGR 3=11
X SELGRNO SELGR 3=14
X SELGRO SELGR 3=1
X SELRE SELR 3=8
X SELRH SELR 3=2
X SELRL SELR 3=4
X SELRNE SELR 3=7
X SELRNH SELR 3=13
X SELRNL SELR 3=11
X SELRNO SELR 3=14
X SELRO SELR 3=1
X STDRV VSTEBRG 2=0
X STERV VSTEBRF 2=0
X STOCE STOC 2=8
X STOCFHE STOCFH 2=8
X STOCFHH STOCFH 2=2
X STOCFHL STOCFH 2=4
X STOCFHNE STOCFH 2=7
X STOCFHNH STOCFH 2=13
X STOCFHNL STOCFH 2=11
X STOCFHNO STOCFH 2=14
X STOCFHO STOCFH 2=1
X STOCGE STOCG 2=8
X STOCGH STOCG 2=2
X STOCGL STOCG 2=4
X STOCGNE STOCG 2=6
X STOCGNH STOCG 2=12
X STOCGNL STOCG 2=10
X STOCGNO STOCG 2=14
X STOCGO STOCG 2=1
X STOCH STOC 2=2
X STOCL STOC 2=4
X STOCNE STOC 2=6
X STOCNH STOC 2=12
X STOCNL STOC 2=10
X STOCNO STOC 2=14
X STOCO STOC 2=1
X VAB VA 3=0
X VACCB VACC 3=0
X VACCCQ VACCC 4=4
X VACCF VACC 3=2
X VACCG VACC 3=3
X VACCH VACC 3=1
X VACCQ VACC 3=4
X VACQ VAC 4=4
X VAF VA 3=2
X VAG VA 3=3
X VAH VA 3=1
X VAQ VA 3=4
X VAVGB VAVG 3=0
X VAVGF VAVG 3=2
X VAVGG VAVG 3=3
X VAVGH VAVG 3=1
X VAVGLB VAVGL 3=0
X VAVGLF VAVGL 3=2
X VAVGLG VAVGL 3=3
X VAVGLH VAVGL 3=1
X VCDG VCFPS 
X VCDGB VCFPS 2=3
X VCDLG VCFPL 
X VCDLGB VCFPL 2=3
X VCEFB VCFPS 2=0
X VCELFB VCFPL 2=0
X VCEQB VCEQ 3=0 4=0
X VCEQBS VCEQ 3=0 4=1
X VCEQF VCEQ 3=2 4=0
X VCEQFS VCEQ 3=2 4=1
X VCEQG VCEQ 3=3 4=0
X VCEQGS VCEQ 3=3 4=1
X VCEQH VCEQ 3=1 4=0
X VCEQHS VCEQ 3=1 4=1
X VCFEB VCSFP 2=2
X VCGD VCSFP 
)"
R"(X VCGDB VCSFP 2=3
X VCHB VCH 3=0 4=0
X VCHBS VCH 3=0 4=1
X VCHF VCH 3=2 4=0
X VCHFS VCH 3=2 4=1
X VCHG VCH 3=3 4=0
X VCHGS VCH 3=3 4=1
X VCHH VCH 3=1 4=0
X VCHHS VCH 3=1 4=1
X VCHLB VCHL 3=0 4=0
X VCHLBS VCHL 3=0 4=1
X VCHLF VCHL 3=2 4=0
X VCHLFS VCHL 3=2 4=1
X VCHLG VCHL 3=3 4=0
X VCHLGS VCHL 3=3 4=1
X VCHLH VCHL 3=1 4=0
X VCHLHS VCHL 3=1 4=1
X VCLFEB VCLFP 2=0
X VCLGDB VCLGD 2=3
X VCLZB VCLZ 2=0
X VCLZF VCLZ 2=2
X VCLZG VCLZ 2=3
X VCLZH VCLZ 2=1
X VECB VEC 2=0
X VECF VEC 2=2
X VECG VEC 2=3
X VECH VEC 2=1
X VECLB VECL 2=0
X VECLF VECL 2=2
X VECLG VECL 2=3
X VECLH VECL 2=1
X VERIMB VERIM 4=0
X VERIMF VERIM 4=2
X VERIMG VERIM 4=3
X VERIMH VERIM 4=1
X VERLLB VERLL 3=0
X VERLLF VERLL 3=2
X VERLLG VERLL 3=3
X VERLLH VERLL 3=1
X VERLLVB VERLLV 3=0
X VERLLVF VERLLV 3=2
X VERLLVG VERLLV 3=3
X VERLLVH VERLLV 3=1
X VESLB VESL 3=0
X VESLF VESL 3=2
X VESLG VESL 3=3
X VESLH VESL 3=1
X VESLVB VESLV 3=0
X VESLVF VESLV 3=2
X VESLVG VESLV 3=3
X VESLVH VESLV 3=1
X VESRAB VESRA 3=0
X VESRAF VESRA 3=2
X VESRAG VESRA 3=3
X VESRAH VESRA 3=1
X VESRAVB VESRAV 3=0
X VESRAVF VESRAV 3=2
X VESRAVG VESRAV 3=3
X VESRAVH VESRAV 3=1
X VESRLB VESRL 3=0
X VESRLF VESRL 3=2
X VESRLG VESRL 3=3
X VESRLH VESRL 3=1
X VESRLVB VESRLV 3=0
X VESRLVF VESRLV 3=2
X VESRLVG VESRLV 3=3
X VESRLVH VESRLV 3=1
X VFADB VFA 3=3 4=0
X VFAEB VFAE 3=0
X VFAEBS VFAE 3=0
X VFAEF VFAE 3=2
X VFAEFS VFAE 3=2
X VFAEH VFAE 3=1
X VFAEHS VFAE 3=1
X VFAEZB VFAE 3=0
X VFAEZBS VFAE 3=0
X VFAEZF VFAE 3=2
X VFAEZFS VFAE 3=2
X VFAEZH VFAE 3=1
X VFAEZHS VFAE 3=1
X VFASB VFA 3=2 4=0
X VFCEDB VFCE 3=3 4=0 5=0
X VFCEDBS VFCE 3=3 4=0 5=1
X VFCESB VFCE 3=2 4=0 5=0
X VFCESBS VFCE 3=2 4=0 5=1
X VFCHDB VFCH 3=3 4=0 5=0
X VFCHDBS VFCH 3=3 4=0 5=1
X VFCHEDB VFCHE 3=3 4=0 5=0
X VFCHEDBS VFCHE 3=3 4=0 5=1
X VFCHESB VFCHE 3=2 4=0 5=0
X VFCHESBS VFCHE 3=2 4=0 5=1
X VFCHSB VFCH 3=2 4=0 5=0
X VFCHSBS VFCH 3=2 4=0 5=1
X VFDDB VFD 3=3 4=0
X VFDSB VFD 3=2 4=0
X VFEEB VFEE 3=0
X VFEEBS VFEE 3=0 4=1
X VFEEF VFEE 3=2
X VFEEFS VFEE 3=2 4=1
X VFEEGS VFEE 3=1 4=1
X VFEEH VFEE 3=1
X VFEEZB VFEE 3=0 4=2
X VFEEZBS VFEE 3=0 4=3
X VFEEZF VFEE 3=2 4=2
X VFEEZFS VFEE 3=2 4=3
X VFEEZH VFEE 3=1 4=2
X VFEEZHS VFEE 3=1 4=3
X VFENEB VFENE 3=0
X VFENEBS VFENE 3=0 4=1
X VFENEF VFENE 3=2
X VFENEFS VFENE 3=2 4=1
X VFENEH VFENE 3=1
X VFENEHS VFENE 3=1 4=1
X VFENEZB VFENE 3=0 4=2
X VFENEZBS VFENE 3=0 4=3
X VFENEZF VFENE 3=2 4=2
X VFENEZFS VFENE 3=2 4=3
X VFENEZH VFENE 3=1 4=2
X VFENEZHS VFENE 3=1 4=3
X VFIDB VFI 2=3
X VFISB VFI 2=2
X VFKEDB VFCE 3=3 4=4 5=0
X VFKEDBS VFCE 3=3 4=4 5=1
X VFKESB VFCE 3=2 4=4 5=0
X VFKESBS VFCE 3=2 4=4 5=1
X VFKHDB VFCH 3=3 4=4 5=0
X VFKHDBS VFCH 3=3 4=4 5=1
X VFKHEDB VFCHE 3=3 4=4 5=0
X VFKHEDBS VFCHE 3=3 4=4 5=1
X VFKHESB VFCHE 3=2 4=4 5=0
X VFKHESBS VFCHE 3=2 4=4 5=1
X VFKHSB VFCH 3=2 4=4 5=0
X VFKHSBS VFCH 3=2 4=4 5=1
X VFLCDB VFPSO 2=3 3=0 4=0
X VFLCSB VFPSO 2=2 3=0 4=0
X VFLLS VFLL 2=2 3=0
X VFLNDB VFPSO 2=3 3=0 4=1
X VFLNSB VFPSO 2=2 3=0 4=1
X VFLPDB VFPSO 2=3 3=0 4=2
X VFLPSB VFPSO 2=2 3=0 4=2
X VFLRD VFLR 2=3
X VFMADB VFMA 4=0 5=3
X VFMASB VFMA 4=0 5=2
X VFMAXDB VFMAX 3=3 4=0
X VFMAXSB VFMAX 3=2 4=0
X VFMDB VFM 3=3 4=0
X VFMINDB VFMIN 3=3 4=0
X VFMINSB VFMIN 3=2 4=0
X VFMSB VFM 3=2 4=0
X VFMSDB VFMS 4=0 5=3
X VFMSSB VFMS 4=0 5=2
X VFNMADB VFNMA 4=0 5=3
X VFNMASB VFNMA 4=0 5=2
X VFNMSDB VFNMS 4=0 5=3
X VFNMSSB VFNMS 4=0 5=2
X VFPSODB VFPSO 2=3 3=0
X VFPSOSB VFPSO 2=2 3=0
X VFSDB VFS 3=3 4=0
X VFSQDB VFSQ 2=3 3=0
X VFSQSB VFSQ 2=2 3=0
X VFSSB VFS 3=2 4=0
X VFTCIDB VFTCI 3=3 4=0
X VFTCISB VFTCI 3=2 4=0
X VGFMAB VGFMA 4=0
X VGFMAF VGFMA 4=2
X VGFMAG VGFMA 4=3
X VGFMAH VGFMA 4=1
X VGFMB VGFM 3=0
X VGFMF VGFM 3=2
X VGFMG VGFM 3=3
X VGFMH VGFM 3=1
X VGMB VGM 3=0
X VGMF VGM 3=2
X VGMG VGM 3=3
X VGMH VGM 3=1
X VISTRB VISTR 2=0
X VISTRBS VISTR 2=0 3=1
X VISTRF VISTR 2=2
X VISTRFS VISTR 2=2 3=1
X VISTRH VISTR 2=1
X VISTRHS VISTR 2=1 3=1
X VLBRF VLBR 2=2
X VLBRG VLBR 2=3
X VLBRH VLBR 2=1
X VLBRQ VLBR 2=4
X VLBRREPF VLBRREP 2=2
X VLBRREPG VLBRREP 2=3
X VLBRREPH VLBRREP 2=1
X VLCB VLC 2=0
X VLCF VLC 2=2
X VLCG VLC 2=3
X VLCH VLC 2=1
X VLDE VFLL 
X VLDEB VFLL 2=2 3=0
X VLED VFLR 
X VLEDB VFLR 2=3
X VLERF VLER 2=2
X VLERG VLER 2=3
X VLERH VLER 2=1
X VLGVB VLGV 3=0
X VLGVF VLGV 3=2
X VLGVG VLGV 3=3
X VLGVH VLGV 3=1
X VLLEBRZE VLLEBRZ 2=6
X VLLEBRZF VLLEBRZ 2=2
X VLLEBRZG VLLEBRZ 2=3
X VLLEBRZH VLLEBRZ 2=1
X VLLEZB VLLEZ 2=0
X VLLEZF VLLEZ 2=2
X VLLEZG VLLEZ 2=3
X VLLEZH VLLEZ 2=1
X VLLEZLF VLLEZ 2=6
X VLPB VLP 2=0
X VLPF VLP 2=2
X VLPG VLP 2=3
X VLPH VLP 2=1
X VLREPB VLREP 2=0
X VLREPF VLREP 2=2
X VLREPG VLREP 2=3
X VLREPH VLREP 2=1
X VLVGB VLVG 3=0
X VLVGF VLVG 3=2
X VLVGG VLVG 3=3
X VLVGH VLVG 3=1
X VMAEB VMAE 4=0
X VMAEF VMAE 4=2
X VMAEH VMAE 4=1
X VMAHB VMAH 4=0
X VMAHF VMAH 4=2
X VMAHH VMAH 4=1
X VMALB VMAL 4=0
X VMALEB VMALE 4=0
X VMALEF VMALE 4=2
X VMALEH VMALE 4=1
X VMALF VMAL 4=2
X VMALHB VMALH 4=0
X VMALHF VMALH 4=2
X VMALHH VMALH 4=1
X VMALHW VMAL 4=1
X VMALOB VMALO 4=0
X VMALOF VMALO 4=2
X VMALOH VMALO 4=1
X VMAOB VMAO 4=0
X VMAOF VMAO 4=2
X VMAOH VMAO 4=1
X VMEB VME 3=0
X VMEF VME 3=2
X VMEH VME 3=1
X VMHB VMH 3=0
X VMHF VMH 3=2
X VMHH VMH 3=1
X VMLB VML 3=0
X VMLEB VMLE 3=0
X VMLEF VMLE 3=2
X VMLEH VMLE 3=1
X VMLF VML 3=2
X VMLHB VMLH 3=0
X VMLHF VMLH 3=2
X VMLHH VMLH 3=1
X VMLHW VML 3=1
X VMLOB VMLO 3=0
X VMLOF VMLO 3=2
X VMLOH VMLO 3=1
X VMNB VMN 3=0
X VMNF VMN 3=2
X VMNG VMN 3=3
X VMNH VMN 3=1
X VMNLB VMNL 3=0
X VMNLF VMNL 3=2
X VMNLG VMNL 3=3
X VMNLH VMNL 3=1
X VMOB VMO 3=0
X VMOF VMO 3=2
X VMOH VMO 3=1
X VMRHB VMRH 3=0
X VMRHF VMRH 3=2
X VMRHG VMRH 3=3
X VMRHH VMRH 3=1
X VMRLB VMRL 3=0
X VMRLF VMRL 3=2
X VMRLG VMRL 3=3
X VMRLH VMRL 3=1
X VMSLG VMSL 4=3
X VMXB VMX 3=0
X VMXF VMX 3=2
X VMXG VMX 3=3
X VMXH VMX 3=1
X VMXLB VMXL 3=0
X VMXLF VMXL 3=2
X VMXLG VMXL 3=3
X VMXLH VMXL 3=1
X VNOT VNO 2=0
X VONE VGBM 1=65535
X VPKF VPK 3=2
X VPKG VPK 3=3
X VPKH VPK 3=1
X VPKLSF VPKLS 3=2 4=0
X VPKLSFS VPKLS 3=2 4=1
X VPKLSG VPKLS 3=3 4=0
X VPKLSGS VPKLS 3=3 4=1
)"
R"(X VPKLSH VPKLS 3=1 4=0
X VPKLSHS VPKLS 3=1 4=1
X VPKSF VPKS 3=2 4=0
X VPKSFS VPKS 3=2 4=1
X VPKSG VPKS 3=3 4=0
X VPKSGS VPKS 3=3 4=1
X VPKSH VPKS 3=1 4=0
X VPKSHS VPKS 3=1 4=1
X VPOPCTB VPOPCT 2=0
X VPOPCTF VPOPCT 2=2
X VPOPCTG VPOPCT 2=3
X VPOPCTH VPOPCT 2=1
X VREPB VREP 3=0
X VREPF VREP 3=2
X VREPG VREP 3=3
X VREPH VREP 3=1
X VREPIB VREPI 2=0
X VREPIF VREPI 2=2
X VREPIG VREPI 2=3
X VREPIH VREPI 2=1
X VSB VS 3=0
X VSBCBIQ VSBCBI 4=4
X VSBIQ VSBI 4=4
X VSCBIB VSCBI 3=0
X VSCBIF VSCBI 3=2
X VSCBIG VSCBI 3=3
X VSCBIH VSCBI 3=1
X VSCBIQ VSCBI 3=4
X VSEGB VSEG 2=0
X VSEGF VSEG 2=2
X VSEGH VSEG 2=1
X VSF VS 3=2
X VSG VS 3=3
X VSH VS 3=1
X VSQ VS 3=4
X VSTBRF VSTBR 2=2
X VSTBRG VSTBR 2=3
X VSTBRH VSTBR 2=1
X VSTBRQ VSTBR 2=4
X VSTERF VSTER 2=2
X VSTERG VSTER 2=3
X VSTERH VSTER 2=1
X VSTRCB VSTRC 4=0
X VSTRCBS VSTRC 4=0
X VSTRCF VSTRC 4=2
X VSTRCFS VSTRC 4=2
X VSTRCH VSTRC 4=1
X VSTRCHS VSTRC 4=1
X VSTRCZB VSTRC 4=0
X VSTRCZBS VSTRC 4=0
X VSTRCZF VSTRC 4=2
X VSTRCZFS VSTRC 4=2
X VSTRCZH VSTRC 4=1
X VSTRCZHS VSTRC 4=1
X VSTRSB VSTRS 4=0
X VSTRSF VSTRS 4=2
X VSTRSH VSTRS 4=1
X VSTRSZB VSTRS 4=0 5=2
X VSUMB VSUM 3=0
X VSUMGF VSUMG 3=2
X VSUMGH VSUMG 3=1
X VSUMH VSUM 3=1
X VSUMQF VSUMQ 3=2
X VSUMQG VSUMQ 3=3
X VUPHB VUPH 2=0
X VUPHF VUPH 2=2
X VUPHH VUPH 2=1
X VUPLB VUPL 2=0
X VUPLF VUPL 2=2
X VUPLHB VUPLH 2=0
X VUPLHF VUPLH 2=2
X VUPLHG VUPLH 2=1
X VUPLHW VUPL 2=1
X VUPLLB VUPLL 2=0
X VUPLLF VUPLL 2=2
X VUPLLH VUPLL 2=1
X VZERO VGBM 1=0
X WCDGB VCFPS 2=2
X WCDLGB VCFPL 2=3
X WCEFB VCFPS 2=2
X WCELFB VCFPL 2=2
X WCFEB VCSFP 2=2
X WCGDB VCSFP 2=3
X WCLFEB VCLFP 2=2
X WCLGDB VCLGD 2=3
X WFADB VFA 3=3 4=8
X WFASB VFA 3=2 4=8
X WFAXB VFA 3=4 4=8
X WFCDB WFC 2=3 3=0
X WFCEDB VFCE 3=3 4=8 5=0
X WFCEDBS VFCE 3=3 4=8 5=1
X WFCESB VFCE 3=2 4=8 5=0
X WFCESBS VFCE 3=2 4=8 5=1
X WFCEXB VFCE 3=4 4=8 5=0
X WFCEXBS VFCE 3=4 4=8 5=1
X WFCHDB VFCH 3=3 4=8 5=0
X WFCHDBS VFCH 3=3 4=8 5=1
X WFCHEDB VFCHE 3=3 4=8 5=0
X WFCHEDBS VFCHE 3=3 4=8 5=1
X WFCHESB VFCHE 3=2 4=8 5=0
X WFCHESBS VFCHE 3=2 4=8 5=1
X WFCHEXB VFCHE 3=4 4=8 5=0
X WFCHEXBS VFCHE 3=4 4=8 5=1
X WFCHSB VFCH 3=2 4=8 5=0
X WFCHSBS VFCH 3=2 4=8 5=1
X WFCHXB VFCH 3=4 4=8 5=0
X WFCHXBS VFCH 3=4 4=8 5=1
X WFCSB WFC 2=2 3=0
X WFCXB WFC 2=4 3=0
X WFDDB VFD 3=3 4=8
X WFDSB VFD 3=2 4=8
X WFDXB VFD 3=4 4=8
X WFIDB VFI 2=3
X WFISB VFI 2=2
X WFIXB VFI 2=4
X WFKDB WFK 2=3 3=0
X WFKEDB VFCE 3=3 4=12 5=0
X WFKEDBS VFCE 3=3 4=12 5=1
X WFKESB VFCE 3=2 4=12 5=0
X WFKESBS VFCE 3=2 4=12 5=1
X WFKEXB VFCE 3=4 4=12 5=0
X WFKEXBS VFCE 3=4 4=12 5=1
X WFKHDB VFCH 3=3 4=12 5=0
X WFKHDBS VFCH 3=3 4=12 5=1
X WFKHEDB VFCHE 3=3 4=12 5=0
X WFKHEDBS VFCHE 3=3 4=12 5=1
X WFKHESB VFCHE 3=2 4=12 5=0
X WFKHESBS VFCHE 3=2 4=12 5=1
X WFKHEXB VFCHE 3=4 4=12 5=0
X WFKHEXBS VFCHE 3=4 4=12 5=1
X WFKHSB VFCH 3=2 4=12 5=0
X WFKHSBS VFCH 3=2 4=12 5=1
X WFKHXB VFCH 3=4 4=12 5=0
X WFKHXBS VFCH 3=4 4=12 5=1
X WFKSB WFK 2=2 3=0
X WFKXB WFK 2=4 3=0
X WFLCDB VFPSO 2=3 3=8 4=0
X WFLCSB VFPSO 2=2 3=8 4=0
X WFLCXB VFPSO 2=4 3=8 4=0
X WFLLD VFLL 2=3 3=8
X WFLLS VFLL 2=2 3=8
X WFLNDB VFPSO 2=3 3=8 4=1
X WFLNSB VFPSO 2=2 3=8 4=1
X WFLNXB VFPSO 2=4 3=8 4=1
X WFLPDB VFPSO 2=3 3=8 4=2
X WFLPSB VFPSO 2=2 3=8 4=2
X WFLPXB VFPSO 2=4 3=8 4=2
X WFLRD VFLR 2=3
X WFLRX VFLR 2=4
X WFMADB VFMA 4=8 5=3
X WFMASB VFMA 4=8 5=2
X WFMAXB VFMA 4=8 5=4
X WFMAXDB VFMAX 3=3 4=8
X WFMAXSB VFMAX 3=2 4=8
X WFMAXXB VFMAX 3=4 4=8
X WFMDB VFM 3=3 4=8
X WFMINDB VFMIN 3=3 4=8
X WFMINSB VFMIN 3=2 4=8
X WFMINXB VFMIN 3=4 4=8
X WFMSB VFM 3=2 4=8
X WFMSDB VFMS 4=8 5=3
X WFMSSB VFMS 4=8 5=2
X WFMSXB VFMS 4=8 5=4
X WFMXB VFM 3=4 4=8
X WFNMADB VFNMA 4=8 5=3
X WFNMASB VFNMA 4=8 5=2
X WFNMAXB VFNMA 4=8 5=4
X WFNMSDB VFNMS 4=8 5=3
X WFNMSSB VFNMS 4=8 5=2
X WFNMSXB VFNMS 4=8 5=4
X WFPSODB VFPSO 2=3 3=8
X WFPSOSB VFPSO 2=2 3=8
X WFPSOXB VFPSO 2=4 3=8
X WFSDB VFS 3=3 4=8
X WFSQDB VFSQ 2=3 3=8
X WFSQSB VFSQ 2=2 3=8
X WFSQXB VFSQ 2=4 3=8
X WFSSB VFS 3=2 4=8
X WFSXB VFS 3=4 4=8
X WFTCIDB VFTCI 3=3 4=8
X WFTCISB VFTCI 3=2 4=8
X WFTCIXB VFTCI 3=4 4=8
X WLDEB VFLL 2=2 3=8
X WLEDB VFLR 2=3
X XHHR RXSBG 2=0 3=31
X XHLR RXSBG 2=0 3=31 4=32
X XLHR RXSBG 2=32 3=63 4=32
)"
