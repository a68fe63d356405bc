package checks

// Registry maps property ids to their checks.
var Registry = map[string]func(r *Run){
	"C01": runC01,
	"C02": runC02,
	"C03": runC03,
	"C04": runC04,
	"C05": runC05,
	"C06": runC06,
	"C07": runC07,
	"C08": runC08,
	"C09": runC09,
	"C13": runC13,
	"C14": runC14, "C15": runC15, "C16": runC16,
	"C10": runC10, "C11": runC11, "C12": runC12, "C17": runC17, "C19": runC19,
	"C20": runC20,
	"C18": runC18,
}
