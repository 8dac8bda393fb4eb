REGISTRY = {p: 'qv.props.%s' % p.lower() for p in (
    'A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A11 A12 A13 A14 '
    'B01 B02 B03 B04 B05 C01 C02 D01 D02 D03 D04 D05 D06 D07 D08 '
    'E01 F01 F02 F03 F04 G01 G02 G03 H01 H02 I01 J01').split()}
