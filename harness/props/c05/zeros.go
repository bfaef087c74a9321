package main

// Multiples k of the base point for which the key stream begins with at least n zero bytes: found by a search over k, as
// the stream is a hash and can not be solved for. The stream is always computed again by the reference.
var zeroPrefix = map[int][]int64{
	2: {24500003, 50000028, 6500237, 39600489, 23600712, 49200757, 14600845, 31101024, 25901186, 43501204},
	3: {12370185386, 13270203649, 14310199257, 20140187254, 20760016224, 21290087223, 22280248264, 23190075181, 23670219395, 23910086886, 24870005635, 24900110242, 31160126579, 31340264271, 31800031178, 32010009769, 33670240313, 33720180181, 40580003323, 40600143362, 40600264702, 42700027940, 42820088400, 43350016878, 44030100603, 44290048914, 44490174534, 44640270695, 50200227371, 50390129885, 50470255529, 51060279963, 51350015488, 52890051681, 52940166441, 53010061905, 53390024243, 54400245557, 60150236442, 60860160781, 60990143043, 61450258929, 62350152158, 62740197708, 62880115187, 63650054118, 63810029183, 63870277728, 64170285769},
}
