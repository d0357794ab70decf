module go.opentelemetry.io/contrib/instrumentation/go.mongodb.org/mongo-driver/v2/mongo/otelmongo

go 1.23

require go.mongodb.org/mongo-driver/v2 v2.7.0
