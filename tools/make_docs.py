"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
SI = "properimage/single_image.py"
OP = "properimage/operations.py"
UT = "properimage/utils.py"
PL = "properimage/plot.py"
ST = "properimage/simtools.py"

# id, title, statement, over, quantifier text, why tests cannot, files,
# [(mechanism name, where)], technique, note
T = []


def P(pid, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (pid, len(title))
    T.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


FIXED = ("The tests build a handful of fixed frames and mostly assert the type "
         "of the result, ")

P("C01", "Every accepted form of an image is the same image",
  "An exposure given as array, masked array, memory order variant, FITS file, "
  "HDU or HDU list yields the same pixels (times the gain), mask, background, "
  "stars and PSF. The options given (gain, crop, border removal, mask guessing) "
  "apply alike in all forms, and the reported gain, header and origin are those "
  "of the input.",
  ["inputs", "configurations"], "all images x input forms x construction options",
  FIXED + "never comparing two forms of one exposure.",
  [SI], [("pixel, header, gain and mask readers for each input type", SI)],
  "differential runtime monitor across input forms",
  "Same field in every form, all options drawn; bit or rounding level equality.")
P("C02", "Crop and border removal keep exactly the requested window",
  "Cropping removes exactly the requested number of rows and columns on each "
  "side and border removal exactly the zero padding around the image. Mask and "
  "every derived image stay registered with the surviving pixels, and results "
  "equal those of the window given on its own.",
  ["inputs", "configurations"], "all frames, paddings, crops, mask forms",
  FIXED + "with one or two symmetric crops.",
  [SI], [("border detection and crop of pixels", SI),
         ("cut of a full frame mask", SI)],
  "online oracle: window model + metamorphic (window given alone)",
  "Window recomputed independently from the input frame.")
P("C03", "The mask is exactly the bad pixels plus their documented growth",
  "Every pixel that is not finite, saturated or far below zero, or marked by the "
  "user, is masked, and so is its documented surrounding; no other pixel is. "
  "Masking never changes a pixel value and unmasked pixels are always finite.",
  ["inputs"], "all placements and values of bad pixels, user masks, gains",
  FIXED + "and never look at which pixels are masked.",
  [SI], [("mask thresholds and growth by seven passes", SI)],
  "online oracle: independent mask model",
  "Exact equality with a scipy-free mask model at every pixel.")
P("C04", "Masks stored in FITS files and extensions keep their polarity",
  "A mask delivered as a file, as an extension of a file or of an HDU list, with "
  "bad-high or bad-low values and a threshold, marks exactly the bad pixels. No "
  "pixel the file marks as bad is used, and the pixel values are not altered.",
  ["inputs", "configurations"],
  "all mask planes x polarity x dtype x threshold x delivery",
  "The tests read one mask of one polarity and check that some pixel is masked.",
  [SI], [("polarity decided from the median of the mask plane", SI)],
  "online oracle: independent mask model over generated FITS files",
  "Real files and HDU lists in a scratch folder.")
P("C05", "What the caller passes in is never modified",
  "No operation changes the arrays, masks, HDUs, files, headers, lists, option "
  "dictionaries or other images handed to it. Read-only arrays are accepted.",
  ["inputs", "histories"], "all public operations x input forms",
  "Tests never fingerprint their inputs before and after a call.",
  [SI, OP, UT, PL], [("in-place arithmetic on views of the input", SI),
                     ("list of exposures and optimiser buffers", OP)],
  "runtime monitor: byte fingerprints before/after, write-protected memory",
  "SHA fingerprints of every input; half the runs use read-only buffers.")
P("C06", "The clean image: exact where valid, a local average where masked",
  "The interpolated image equals the background subtracted pixels wherever the "
  "mask is clear. Inside masked regions of any size it is the average of the valid "
  "pixels in reach, or zero (the subtracted background) where none is. It is "
  "finite and real, its transform is its unitary Fourier transform, and asking "
  "again returns the same.",
  ["inputs"], "all damage patterns, including holes larger than the kernel",
  FIXED + "so a wrong fill or a shifted image would pass.",
  [SI], [("box average fill of masked pixels", SI)],
  "online oracle: independent fill model, range and locality invariants",
  "Known finding: cosmic-ray cleaning has no effect.")
P("C07", "Background and noise are those of the unmasked sky",
  "The background follows the sky and the noise is the sky's standard deviation, "
  "both untouched by masked pixels. Adding a constant moves only the background, "
  "scaling scales both, and the subtracted image is pixels minus background.",
  ["inputs"], "all skies, gradients, noise levels, masks, gains",
  FIXED + "not what the background or the noise is.",
  [SI], [("background mesh with or without mask", SI)],
  "online oracle: independent estimate + truth + metamorphic relations",
  "Truth of the simulated sky within statistical tolerance.")
P("C08", "PSF stars: quality selection and aligned, normalised stamps",
  "Stars kept for the PSF are real, unblended, unmasked, of typical size and "
  "brightness, and fall back to all detections when too few remain. Each kept "
  "star has exactly one stamp, of the reported shape, finite, unit sum, cut at "
  "the position listed for it.",
  ["inputs", "configurations"],
  "all fields, densities, stamp shapes, minimum counts, careful pick on or off",
  "Tests check that a list of positions exists for a few fields.",
  [SI], [("quality cuts on the extracted catalogue", SI),
         ("stamp extraction, levelling and rejection", SI)],
  "online oracle: independent detection, selection and stamp models",
  "Uses the same extraction library for raw detections.")
P("C09", "The PSF decomposition explains the measured stars",
  "The covariance is that of the star stamps, the components are its leading "
  "eigenvectors in decreasing power, and their number is the least that leaves "
  "out no more than the requested information loss. Less loss never means fewer "
  "components, and a single component has unit sum and no coefficients.",
  ["inputs", "configurations"], "all star sets, constant or variable PSF, losses",
  "Tests check lengths and types for one loss value.",
  [SI], [("covariance of stamps, eigendecomposition, cut", SI),
         ("coefficient surfaces", SI)],
  "online oracle: independent eigendecomposition of the same stamps",
  "Both the small catalogue and the large catalogue (over 250 stars) paths.")
P("C10", "Answers depend on current settings, not on the order of questions",
  "After any sequence of questions, changes of information loss or flux scale, "
  "stamp shapes asked for and use in operations, every answer equals that of a fresh image brought "
  "directly to the same settings.",
  ["histories"], "all sequences of questions and setting changes on one image",
  "Each test builds a fresh instance and asks one question.",
  [SI], [("lazily cached attributes and their invalidation", SI)],
  "history monitor: random operation sequences against a fresh twin",
  "Histories of 10-25 steps; all pairs of consecutive operations covered.")
P("C11", "The PSF at a position is the decomposition evaluated there",
  "At any position of the image, its edges included, the PSF returned has the "
  "stamp shape, unit sum, and is the sum of components times their coefficients "
  "there; of a fitted exposure it is the fitted PSF. The normalisation image is the field of total PSF weight at every pixel.",
  ["inputs"], "all positions, components, even, odd and oblong stamps",
  "Tests query the middle of one image.",
  [SI], [("evaluation of PSF at a position, normalisation image", SI)],
  "online oracle: independent evaluation of the decomposition",
  "Positions up to the edges; outside the image its edge values go on.")
P("C12", "The measured PSF is the PSF of the sky",
  "For a sky with a known PSF the empirical PSF has its profile, width, "
  "orientation and handedness, and the fitted PSF, of unit sum, its widths and "
  "angle, within noise. A PSF that changes over the field is found at each place.",
  ["inputs"], "all widths, axis ratios, angles, fields",
  "The tests never compare a measured PSF with the one simulated.",
  [SI, UT], [("empirical basis", SI), ("Gaussian fit of stamps", UT)],
  "ground-truth oracle over simulated skies",
  "Tolerances from noise and pixelisation.")
P("C13", "The matched filter image follows its formula and finds the stars",
  "The filtered image of an exposure is the flux scale over the variance times "
  "the correlation with the local PSF, decomposed or fitted, over the "
  "normalisation. It is real, "
  "finite and peaks at the stars; its transform is consistent with it.",
  ["inputs"], "all fields, PSFs, scales, shapes",
  FIXED + "so a sign, conjugate or scale error would pass.",
  [SI], [("matched filter sum over components", SI)],
  "online oracle: independent filter + position of known stars",
  "Model evaluated with numpy FFT, not the code's FFT.")
P("C14", "Relative transparencies are the flux ratios of the common stars",
  "Zero points are the least squares solution over the stars common to the "
  "exposures, so their ratios are those of the sky, whatever the order or number "
  "of images or earlier use. Without common stars all images weigh the same.",
  ["inputs", "histories"], "all stacks, scales, orders, partial overlaps, repeats",
  "One test with one stack checks types only.",
  [UT], [("mutual matching and linear system of zero points", UT)],
  "online oracle: closed form solution over independently matched stars",
  "Also against the true scales of the simulated sky.")
P("C15", "The difference image follows the proper subtraction estimator",
  "The difference, its PSF, its score image and mask are those of the published "
  "estimator evaluated at the flux scale and shift in use. Flux scale and shift "
  "stay in the bounds of the search.",
  ["inputs", "configurations"], "all pairs x PSF model x search options",
  FIXED + "and would accept any array of the right shape.",
  [OP], [("estimator in Fourier space", OP), ("score image and its noise", OP)],
  "online oracle: independent evaluation of the estimator",
  "Fourier modes below rounding noise are left out.")
P("C16", "Subtraction symmetries and recovery of what changed in the sky",
  "A scene minus itself, or a scaled and offset copy, vanishes; exchanging the "
  "images negates the difference and keeps its PSF. A source that appears or "
  "disappears comes out at its place, with its sign and its flux.",
  ["inputs"], "all pairs, scales, offsets, transients, damage",
  "No test looks at the content of a difference image.",
  [OP], [("difference of cross-convolved images", OP)],
  "metamorphic and ground-truth oracles",
  "Flux within 20 % (Gaussian) or 40 % (empirical PSF).")
P("C17", "subtract returns four well formed results for every option set",
  "For every combination of PSF model, flux and shift search, iteration, loss and "
  "input form the four results have the shape of the images, are finite, and the "
  "PSF sums to one. The mask is the union of both masks; different sizes are "
  "refused, and the deprecated spelling gives the same and warns.",
  ["inputs", "configurations"], "all option combinations x input forms x damage",
  "Options are tested singly on one pair.",
  [OP], [("option branches of the subtraction", OP)],
  "contract monitor over the full option product",
  "Option product covered completely in each run.")
P("C18", "Noise of difference and coadd is white and of known level",
  "Away from sources the difference of two exposures with independent white "
  "noise has zero mean, unit variance and uncorrelated pixels; the noise of a "
  "coadd is the one its weights predict.",
  ["inputs"], "all noise levels and ratios, PSFs, shapes, option sets",
  "A statistical guarantee over pixels and realisations, never measured by a test.",
  [OP], [("normalisation by both noises", OP)],
  "statistical runtime monitor over source free pixels",
  "Bounds chosen at more than five standard errors.")
P("C19", "The search for flux scale and shift finds the true ones",
  "With search enabled the flux ratio and the sub-pixel offset between the "
  "exposures are recovered and static stars cancel; without it the ratio is the "
  "one of the common stars and there is no shift. The search never makes the "
  "residuals worse.",
  ["inputs", "configurations"], "all ratios, sub-pixel offsets, search options",
  "No test checks the unknowns found.",
  [OP], [("least squares and scalar minimisation of the residual", OP)],
  "ground-truth oracle; optimiser observed at its library seam",
  "Median of five pairs per case: one search may stop in a local minimum.")
P("C20", "The coadded image follows the proper coaddition estimator",
  "Coadd, its PSF and mask are those of the published estimator evaluated with "
  "the exposures' PSFs, decomposed or fitted, noises and flux scales. The PSF sums to one and stars in "
  "the coadd look like it.",
  ["inputs", "configurations"], "all stacks, PSFs, depths, worker counts",
  FIXED + "not its values.",
  [OP, SI], [("sum of matched filtered exposures, normalisation", OP)],
  "online oracle: independent evaluation of the estimator",
  "Fourier modes below rounding noise are left out.")
P("C21", "Parallel coaddition adds each exposure exactly once",
  "For any number of workers and any schedule the coadd, PSF and mask are those "
  "of the sequential one, every exposure contributing exactly once. A failing "
  "exposure fails the operation, and operations side by side do not disturb each "
  "other.",
  ["schedules", "fault_sequences", "configurations"],
  "all worker counts, interleavings, failing exposures, concurrent operations",
  "Tests run one default worker count under one schedule.",
  [OP, UT], [("chunks handed to threads and combined", OP), ("chunking", UT)],
  "schedule stress with injected delays and faults; exactly-once tags",
  "Distinct interleavings are counted in the evidence.")
P("C22", "Coadd contract: order, depth, weights and shapes",
  "Results have the exposures' shape, the mask is the union, the coadd is real "
  "and finite, and neither order nor input form matters. Depth grows with the "
  "number of exposures and a poor exposure does not hurt.",
  ["inputs", "configurations"], "all stacks x forms x orders",
  FIXED + "on one stack.",
  [OP], [("combination of exposures", OP)],
  "contract and metamorphic monitors",
  "Depth measured on known stars.")
P("C23", "Splitting work into chunks loses nothing",
  "Splitting any sequence into any number of chunks gives that many contiguous, "
  "balanced pieces holding every item exactly once, and leaves the sequence "
  "alone.",
  ["inputs"], "all sequences and chunk counts",
  "Tests split a few fixed lists.",
  [UT], [("chunk boundaries", UT)],
  "online oracle over thousands of random sequences",
  "Thousands of random sequences per run, more chunks than items included.")
P("C24", "Exposures with another pointing are brought to the reference grid",
  "With alignment, exposures rotated, moved or of another size are registered to "
  "the first: results live on its grid, static stars cancel or add up, new "
  "sources come out in place. Pixels not covered by all, and known bad pixels, "
  "are masked, and the result is that of images registered beforehand.",
  ["inputs", "configurations"], "all rotations, offsets, sizes, damage",
  "Tests align one pair and check types.",
  [OP, UT], [("registration before subtraction", OP),
             ("registration before coaddition", UT)],
  "ground-truth and differential oracles over turned skies",
  "The registration library's shuffle is seeded by the harness.")
P("C25", "Temporary star stamps are private to one image and get removed",
  "Several images alive at once, in threads or forked processes, never read or "
  "remove each other's stored stamps. Leaving an image's context removes its "
  "files, and operations, those ending with an error included, leave neither "
  "files nor descriptors behind, nor do they remove those of the caller's images.",
  ["histories", "schedules"], "all orders of use and disposal, threads, processes",
  "Tests use one image at a time.",
  [SI, OP], [("stamp database path and clean up", SI)],
  "resource monitor: scratch folder and descriptor accounting, stress",
  "Counts files and descriptors before and after.")
P("C26", "Catalogue matching returns the true mutual nearest neighbours",
  "Each point gets the distance and index of its nearest neighbour within the "
  "radius, or is told apart as unmatched. Mutual matches are symmetric and use "
  "each point at most once.",
  ["inputs"], "all point sets, dimensions, radii, ties, empty overlaps",
  "Tests match a few small catalogues.",
  [UT], [("k-d tree queries and mutual selection", UT)],
  "online oracle: brute force nearest neighbours",
  "Exact up to rounding.")
P("C27", "Detection in score images finds each region above threshold once",
  "Each connected region above the threshold gives exactly one detection, at its "
  "weighted centre, with its significance in units of the noise. Injected "
  "sources are found, nothing is found in nothing, and units do not matter.",
  ["inputs"], "all score images, thresholds, sizes",
  "Tests use one fixed image.",
  [UT], [("labelling above a clipped threshold", UT)],
  "online oracle: flood fill model + injected truth",
  "Independent flood fill.")
P("C28", "Stored images come back as they were",
  "Pixels, mask and observation facts written to FITS come back equal, complex "
  "images as their real part, masked ones with a separate mask plane. Nothing "
  "else is written and the input is untouched.",
  ["inputs"], "all images, masks, dtypes, shapes, overwrites",
  "Tests write one array and check that a file exists.",
  [UT, ST], [("FITS writer", UT), ("FITS writer of simulations", ST)],
  "round-trip monitor with an independent reader",
  "Real files in a scratch folder.")
P("C29", "Simulated skies are what was asked for",
  "Simulated PSFs, galaxies, sources and exposures have the size, width, angle, "
  "sum, positions, noise and reproducibility requested.",
  ["inputs"], "all simulator parameters and seeds",
  "Tests use one parameter set.",
  [ST], [("PSF, galaxy, point source and noise generators", ST)],
  "ground-truth oracle on moments, profiles and noise",
  "Statistical bounds at more than five standard errors.")
P("C30", "Plots show the arrays they are asked to show",
  "Every plotting entry point shows the image, basis or coefficients themselves, "
  "on the axes given, with the caller's options taking precedence. Wrong requests "
  "are refused with a clear error.",
  ["inputs", "configurations"], "all images, component counts, options, axes",
  "Tests check that plotting does not raise.",
  [PL], [("plot accessors", PL)],
  "oracle on the artists found on the axes",
  "Agg back end; pixels of the rendering are not compared.")
P("C31", "What cannot be measured is refused without side effects",
  "An exposure without usable stars (noise, constant, one star, saturated, fully "
  "masked, a few pixels), of the wrong kind, with a mask of another shape, or "
  "missing, makes every entry point "
  "end promptly with an error and never with a result; unmeasurable images raise "
  "a value error. Other images and later operations are unaffected.",
  ["inputs", "fault_sequences"], "all defects x entry points x positions",
  "Tests trigger two or three of the refusals on construction only.",
  [SI, OP, UT], [("star extraction refusals", SI),
                 ("conversion of inputs", OP)],
  "fault injection with refusal and isolation oracles",
  "Memory and time bounds are enforced on every call.")
P("C32", "Same question, same answer, and the process is left alone",
  "Repeating an operation on the same input gives the same result, whatever "
  "happened in between, in this or another process. Operations do not draw from "
  "the global random state nor change process wide settings.",
  ["histories", "configurations"], "all operations, random states, hash seeds",
  "Each test calls once and compares with nothing.",
  [SI, OP, UT], [("cached attributes, sets and ordering", SI)],
  "repeat-execution monitor; process settings snapshot",
  "Over 1800 stars and library alignment are random by design and excluded.")


def main(extra=()):
    with open(ROOT / "properties.jsonl", "w") as f:
        for t in T:
            f.write(json.dumps({
                "id": t["pid"], "title": t["title"],
                "statement": t["statement"],
                "quantifier": {"over": t["over"], "text": t["text"]},
                "why_tests_cant": t["why"],
                "anchors": {"files": t["files"], "mechanism": [
                    {"name": n, "where": w} for n, w in t["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash check.sh --selftest",
        "checks": [{
            "property": t["pid"],
            "quick_cmd": f"bash check.sh {t['pid']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {t['pid']}",
            "technique": "runtime monitoring: " + t["technique"],
            "level": "exploration",
            "level_note": t["note"] + " Holds on the executions observed; "
            "trusts numpy, scipy, sep and astropy.",
        } for t in T],
        "not_applicable": [],
        "notes": "Pure Python target: compiler sanitizers and race detectors "
        "have no native code of the repository to instrument (see DESIGN.md). "
        "No hooks in /repo: monitors attach from outside.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
