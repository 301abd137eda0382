from vf import H
TITLE = "BRIEF descriptors compare the right pixels inside the image and survive storage"
D = {"PW":4,"PH":4,"VF_FCAP":320}
S = lambda n, b, **k: H(n, "brief.c", defs=dict(D, **k.pop("defs", {})), engine="se", exclude=("src/nx_uniform_sampler.c",), leak=k.pop("leak", True), bounds=b, **k)
HARNESSES = [
    S("brief_pairs", "radii 1..5 and 16, first point anywhere in the patch, later draws walking around its corners"),
    H("brief_dist", "briefdist.c", defs={"NO":17}, tdefs={"NO":33}, unwind=19, tunwind=35, bounds="descriptors of 0..NO octets, any contents"),
    S("brief_compute", "pyramids of 1..3 levels of PW by PH, any pixels, all points in and around the image, one test pair at the first, middle or last position with five offsets"),
    S("brief_theta", "two levels, four angles, all points of the image, one pair with five offsets"),
    S("brief_rt", "extractors of 1..2 octets, radii 1..6, streams cut at a third of the positions and everywhere near the end", leak=False),
    S("brief_wfail", "write failure at every byte", leak=False),
    S("brief_any", "35 combinations of valid and impossible headers", leak=False),
]
STATEMENT = """Test pairs lie within the patch radius, are found for every radius and (where the patch has room) lie three pixels apart; the recorded limits are their extremes. A point is accepted exactly when
every pixel its descriptor samples lies in the sampled pyramid level, each descriptor bit compares the two pixels of its pair, and rotated sampling never leaves the image. The descriptor distance is the Hamming
distance for every length. An extractor written to a stream reads back identical; cut, refused or impossible streams are reported."""
QUANT = (["inputs","fault_sequences"], "all points, pixels, offsets, octets and stream cuts within the bounds")
WHY = "reads outside the image and unlucky random draws need particular points and draws that tests do not make"
FILES = ["src/nx_brief_extractor.c"]
MECH = [("test pairs, descriptors, distance and streams", "src/nx_brief_extractor.c")]
ASSUMPTIONS = ["the sampler returns values in [0,1) (C26)"]
