"""Development-time tool: derives fixtures/example.sidd100.xml (SIDD 1.0.0) from the SIDD 2.0.0 example. Not used by the checks."""
import re

s = open("/verif/fixtures/example.sidd.xml").read()
s = s.replace("urn:SIDD:2.0.0", "urn:SIDD:1.0.0").replace("urn:SICommon:1.0", "urn:SICommon:0.1").replace("urn:us:gov:ic:ism:13", "urn:us:gov:ic:ism")
s = re.sub(r"<Display>.*</Display>", "<Display><PixelType>MONO8I</PixelType></Display>", s, flags=re.S)
s = re.sub(r"<GeoData>.*</GeoData>", "<GeographicAndTarget><GeographicCoverage><Footprint size=\"4\">" + "".join(
    f'<Vertex index="{i + 1}"><si:Lat>{a}</si:Lat><si:Lon>{b}</si:Lon></Vertex>' for i, (a, b) in enumerate(
        [(29.960450990351426, 31.667670895971167), (29.9259416082788, 31.6797850524771), (29.915386465958854, 31.640168122695233), (29.949892260080535, 31.62804157169811)])) +
    "</Footprint></GeographicCoverage></GeographicAndTarget>", s, flags=re.S)
m = re.search(r"<Measurement>.*</Measurement>", s, flags=re.S).group(0)
s = s.replace(m, re.sub(r"\s*<ValidData.*</ValidData>", "", m, flags=re.S))
s = re.sub(r" ism:ISMCATCESVersion=\"1\"", "", s).replace("ism:DESVersion=\"13\"", "ism:DESVersion=\"4\"")
s = re.sub(r"\s*<DopplerConeAngle>.*?</DopplerConeAngle>", "", s)
s = re.sub(r"\s*<Polarization>.*?</Polarization>", "", s, flags=re.S)
s = re.sub(r"\s*<Ellipticity>.*?</Ellipticity>", "", s)
open("/verif/fixtures/example.sidd100.xml", "w").write(s)
